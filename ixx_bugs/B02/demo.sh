#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
clang++-18 -std=gnu++20 -O1 -w -DNDEBUG -I. -Iinc -I/usr/include/eigen3 "$D/demo.cpp" -o "$T/demo" -ltbb -lnlopt || exit 3
timeout 120 "$T/demo"
