#!/bin/bash
# Development tool: seedtest.sh ID [CHECK...]: confirm a planted bug in scratch copies of /repo and /verif (mount namespace), then run checks on it.
# NOTEST=1 skips the test suite, NODEMO=1 the demo.
id=$1; shift
S=/verif/seeded/$id
W=$(mktemp -d /tmp/seed_${id}_XXXX)
cp -a /repo $W/repo
mkdir -p $W/verif; cp -a /verif/. $W/verif/; rm -rf $W/verif/seeded
cp -a $S $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
cp $S/patch.diff $W/
export id W S NOTEST NODEMO CHECKS="$*"
unshare -m bash -c '
mount --bind $W/repo /repo; mount --bind $W/verif /verif; cd /repo
git checkout -q -- .
if [ -z "$NODEMO" ]; then
  bash /opt/vp/build.sh > $W/b0.log 2>&1 || echo "$id BUILD0 FAIL"
  timeout 300 bash $W/demo/demo.sh > $W/d0.log 2>&1; echo "$id demo(unchanged)=$?"
fi
git apply $W/patch.diff || { echo "$id PATCH FAIL"; exit; }
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh > $W/b1.log 2>&1 || { echo "$id BUILD FAIL"; tail -5 $W/b1.log; }
timeout 300 bash $W/demo/demo.sh > $W/d1.log 2>&1; echo "$id demo(patched)=$?"; tail -2 $W/d1.log
fi
for c in $CHECKS; do
  (cd /verif; timeout 900 python3 lib/run.py $c > $W/c_$c.log 2>&1; echo "$id check $c rc=$? $(grep -c "^VIOLATION property=$c" $W/c_$c.log) violations"; grep -v "^VIOL\|^build\|KNOWN" $W/c_$c.log | sed -n 2,3p | cut -c1-250)
done
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh $W/t.json > $W/t.log 2>&1; echo "$id tests: $(tail -1 $W/t.log)"; python3 -c "
import json; t=json.load(open(\"$W/t.json\")); b=json.load(open(\"/opt/vp/BASELINE.json\"))
f=[x for x in t[\"failed\"] if \"test_list_data_files\" not in x]; print(\"$id failing:\", f[:5])"; fi
' 2>&1
rm -rf $W
