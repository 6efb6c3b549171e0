#!/bin/bash
# seedtest.sh ID...: confirm planted bugs in a scratch copy: applies, builds, tests pass, demo 0 without and !=0 with the patch
S=/tmp/seedcopy
rm -rf /tmp/seedcopy /tmp/seedvp; mkdir -p /tmp/seedvp
git clone -q /repo /tmp/seedcopy
for f in build.sh test.sh; do sed "s#/repo#$S#g; s#/opt/vp/build.sh#/tmp/seedvp/build.sh#g" /opt/vp/$f > /tmp/seedvp/$f; done
bash /tmp/seedvp/build.sh > /tmp/seedvp/b.log 2>&1 || { echo base build failed; exit 1; }
for id in "$@"; do
  d=$(mktemp -d /tmp/seeddemo.XXXX); cp -r /verif/seeded/$id/. $d/; rm -f $d/patch.diff $d/meta.json
  (cd $S && timeout 300 bash $d/demo.sh > /tmp/seedvp/$id.base 2>&1); b=$?
  git -C $S apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  bash /tmp/seedvp/test.sh /tmp/seedvp/$id.json > /tmp/seedvp/$id.log 2>&1
  f=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=set(json.load(open('/tmp/seedvp/$id.json'))['passed'])
print(len(t), [x for x in b if x not in t][:5])
P
)
  (cd $S && timeout 300 bash $d/demo.sh > /tmp/seedvp/$id.bug 2>&1); w=$?
  git -C $S checkout -q -- .
  rm -rf "$d"
  bash /tmp/seedvp/build.sh > /tmp/seedvp/b.log 2>&1
  echo "$id: demo base=$b bug=$w tests passed/missing: $f"
done
rm -rf /tmp/seedcopy
