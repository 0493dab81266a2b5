#!/bin/bash
# testtree.sh DIR: builds a copy of the repository and runs its stable tests
set -u
R=$1; S=$(mktemp -d)
sed "s#^SRC=/repo#SRC=$R#" /opt/vp/build.sh > $S/build.sh
bash $S/build.sh > $S/build.log 2>&1 || { tail -30 $S/build.log; echo BUILD FAILED; exit 1; }
mkdir -p $R/tests/out $R/_build/tests/out
ctest --test-dir $R/_build -j 8 --timeout 300 --output-junit $S/ctest.xml > $S/ctest.log 2>&1
python3 /opt/vp/results.py $S/out.json "junit:$S/ctest.xml" >/dev/null
python3 - $S/out.json <<P
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open(sys.argv[1]))
print('failing stable tests:', sorted(b-set(o['passed'])))
P
