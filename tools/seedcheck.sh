#!/bin/bash
# seedcheck.sh ID...: confirms planted bugs in a scratch copy: the demo passes on the clean tree,
# the patched tree builds, passes the stable tests, and the demo fails.
set -u
S=/tmp/seedscratch; R=$S/repo
mkdir -p $S
if [ ! -d $R ]; then
  git clone -q /repo $R
fi
git -C $R fetch -q origin && git -C $R checkout -q -f --detach origin/HEAD
git -C $R reset -q --hard $(git -C /repo rev-parse HEAD)
sed "s#^SRC=/repo#SRC=$R#" /opt/vp/build.sh > $S/build.sh
for id in "$@"; do
  D=/verif/seeded/$id
  rm -rf /tmp/seedscratch/demo; cp -r $D $S/demo; rm -f $S/demo/*.diff $S/demo/meta.json
  git -C $R checkout -q -f .
  (cd $R && timeout 300 bash $S/demo/demo.sh >$S/demo.log 2>&1); a=$?
  git -C $R apply $D/patch.diff || { echo "$id: patch does not apply"; continue; }
  (cd $R && timeout 300 bash $S/demo/demo.sh >>$S/demo.log 2>&1); b=$?
  if [ "${QUICK:-}" ]; then echo "$id: demo clean=$a patched=$b"; [ $a = 0 -a $b != 0 ] || tail -5 $S/demo.log; git -C $R checkout -q -f .; continue; fi
  if ! bash $S/build.sh > $S/build.log 2>&1; then echo "$id: build failed"; tail -20 $S/build.log; git -C $R checkout -q -f .; continue; fi
  mkdir -p $R/tests/out $R/_build/tests/out $S/r
  ctest --test-dir $R/_build -j 8 --timeout 300 --output-junit $S/r/ctest.xml > $S/r/ctest.log 2>&1
  python3 /opt/vp/results.py $S/out.json "junit:$S/r/ctest.xml" >/dev/null
  python3 - "$id" $a $b <<P
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$S/out.json'))
miss=sorted(b-set(o['passed']))
ok = sys.argv[2]=='0' and sys.argv[3]!='0' and not miss
print(sys.argv[1], 'demo clean=%s patched=%s'%(sys.argv[2],sys.argv[3]), 'failing stable tests:', miss[:5], 'OK' if ok else 'NOT OK')
P
  git -C $R checkout -q -f .
done
