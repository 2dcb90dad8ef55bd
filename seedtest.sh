#!/bin/bash
# dev aid: seedtest.sh ID [nocheck]: confirms a planted bug (demo passes before, builds, stable tests pass, demo fails after) and runs the quick check of its property.
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
rm -rf "/tmp/sd/$id"; mkdir -p "/tmp/sd/$id"; cp -r $d/. "/tmp/sd/$id"; rm -f "/tmp/sd/$id"/*.diff "/tmp/sd/$id"/meta.json
bash "/tmp/sd/$id/demo.sh" >/tmp/sd/$id.base 2>&1; echo "$id demo on base: $? ($(tail -1 /tmp/sd/$id.base))"
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/sd/$id.build 2>&1 || { echo BUILD FAILS; exit 2; }
bash "/tmp/sd/$id/demo.sh" >/tmp/sd/$id.out 2>&1; echo "$id demo with patch: $? ($(tail -1 /tmp/sd/$id.out))"
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/sd/$id.json >/dev/null 2>&1
python3 - $id <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);o=set(json.load(open('/tmp/sd/%s.json'%sys.argv[1]))['passed'])
print(sys.argv[1],"stable tests broken:",len(b-o),sorted(b-o)[:3])
P
fi
[ "$3" = nocheck ] && exit
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run_check.py $p quick >/tmp/sd/$id.chk 2>&1; echo "$id check $p: exit $? $(grep VIOLATION /tmp/sd/$id.chk)"; grep -A2 -i "fail\|key" /tmp/sd/$id.chk | head -4
