#!/bin/bash
# seedtest.sh ID... : in a scratch copy of /repo (/tmp/sr), confirm that a planted change applies, builds,
# passes the stable tests, and that its demo passes without it and fails with it.
set -u
SR=/tmp/sr; OP=/tmp/sr-op
if [ ! -d $SR/_build ]; then
  mkdir -p $SR $OP; tar c -C /repo --exclude=./.git --exclude=./_build . | tar x -C $SR; ( cd $SR && rm -f .gitattributes && git init -q && git add -A src include pch plugin && git -c user.email=a@b -c user.name=a commit -qm base )
  for f in build.sh test.sh run_tests.py results.py; do sed 's#/repo#/tmp/sr#g; s#/opt/vp/build.sh#/tmp/sr-op/build.sh#g; s#/opt/vp/run_tests.py#/tmp/sr-op/run_tests.py#g; s#/opt/vp/results.py#/tmp/sr-op/results.py#g' /opt/vp/$f > $OP/$f; done
fi
# bring the scratch copy to /repo's HEAD
( cd $SR && git checkout -q -- . && git -C /repo archive HEAD src include pch plugin | tar x -C $SR && git add -A src include pch plugin && git -c user.email=a@b -c user.name=a commit -qm sync 2>/dev/null )
B() { bash $OP/build.sh > /tmp/sr-build.log 2>&1; }
demo() { mkdir -p /tmp/sr-demo; rm -rf /tmp/sr-demo/$1; cp -r /verif/seeded/$1 /tmp/sr-demo/$1; rm -f /tmp/sr-demo/$1/*.diff /tmp/sr-demo/$1/meta.json; sed -i 's#/repo#/tmp/sr#g' /tmp/sr-demo/$1/*; ( cd $SR && timeout 300 bash /tmp/sr-demo/$1/demo.sh > /tmp/sr-demo/$1.$2.log 2>&1 ); }
B || { echo base build failed; tail -5 /tmp/sr-build.log; exit 1; }
for id in "$@"; do demo $id base; echo "$id demo unchanged: exit $?"; done
for id in "$@"; do
  ( cd $SR && git apply /verif/seeded/$id/patch.diff ) || { echo "$id: DOES NOT APPLY"; continue; }
  if B; then demo $id bug; echo "$id demo patched: exit $? $(tail -1 /tmp/sr-demo/$id.bug.log)"
    if [ "${NOTEST:-}" = "" ]; then bash $OP/test.sh /tmp/sr-t.json > /tmp/sr-test.log 2>&1; python3 - $id <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/sr-t.json'))
st=b.get('stable') or b.get('passed') or b.get('tests'); p=set(x.replace('/tmp/sr','/repo') for x in r['passed']); m=[t for t in st if t not in p]
print(sys.argv[1],'stable tests missing:',len(m),m[:3])
PY
    fi
  else echo "$id: BUILD FAILS"; grep -m3 error /tmp/sr-build.log; fi
  ( cd $SR && git checkout -q -- . )
done
