#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks": the working-tree change in /repo becomes seeded/ID (demo.sh and its files already there), is verified, and is undone
ID=$1; P=$2; S=/verif/seeded/$ID; mkdir -p $S
cp /verif/meta/seedlib/h.sh $S/h.sh
if git -C /repo diff --quiet; then git -C /repo apply $S/patch.diff || exit 1; else git -C /repo diff > $S/patch.diff; fi
[ -n "$3" ] && python3 - "$S/meta.json" "$P" "$3" "$4" <<'Y'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
Y
bash /opt/vp/build.sh >/tmp/mkseed.log 2>&1 || { echo BUILD FAILED; grep -m5 error: /tmp/mkseed.log; }
(cd /repo; timeout 300 bash $S/demo.sh >/tmp/demo.bad 2>&1); bad=$?
bash /opt/vp/test.sh /tmp/mk.json >/dev/null 2>&1
python3 - <<'Y'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/mk.json'))
m=[x for x in b if x not in t['passed']]
print('tests lost:',m[:5],len(m))
Y
cd /verif; VERIF_SEED=1 timeout 900 python3 run.py $P > /tmp/chk.out 2>&1; c=$?
git -C /repo checkout -- . ; bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo; timeout 300 bash $S/demo.sh >/tmp/demo.good 2>&1); good=$?
echo "$ID $P: demo with patch=$bad (want !=0) clean=$good (want 0) check=$c (want 1)"; grep -m3 -A1 VIOLATION /tmp/chk.out
tail -2 /tmp/demo.bad; [ $good = 0 ] || tail -5 /tmp/demo.good
