#!/bin/bash
# summary of the engine's candidates (before replay) of the last run of check $1
cd /verif/out/$1 && cat */cand_*.txt | awk '/^case /{c=$2} /^label /{l=$0; sub(/^label /,"",l); n[c": "l]++} END{for(k in n) print n[k], k}' | sort -k2
