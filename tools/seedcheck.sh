#!/bin/bash
# seedcheck.sh ID [notest]: demo unpatched/patched, the property's check, the whole test suite, in a private mount namespace
id=$1; d=/verif/seeded/$id; w=/tmp/sc_$id
rm -rf "$w"; cp -a /repo "$w" || exit 9
git -C "$w" apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; rm -rf "$w"; exit 9; }
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
a=$( (cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/sc_$id.d0 2>&1); echo $?)
b=$( (cd "$w" && timeout 300 bash "$d/demo.sh" >/tmp/sc_$id.d1 2>&1); echo $?)
mkdir -p /tmp/sc_ev_$id
c=$(unshare -Urm bash -c "mount --bind $w /repo && mount --bind /tmp/sc_ev_$id /verif/evidence && cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 run.py check $prop --tier quick >/tmp/sc_$id.chk 2>&1; echo \$?")
v=$(grep -c "^VIOLATION property=$prop" /tmp/sc_$id.chk)
t=skipped
if [ "$2" != notest ]; then
  t=$(unshare -Urm bash -c "mount --bind $w /repo && (bash /opt/vp/test.sh /tmp/sc_$id.json >/tmp/sc_$id.tlog 2>&1; tail -1 /tmp/sc_$id.tlog)")
  t="$t; lost: $(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); 
b=set(b if isinstance(b,list) else b.get('stable') or b.get('passed') or b.get('tests') or [])
try: r=set(json.load(open('/tmp/sc_$id.json'))['passed'])
except Exception as e: r=set()
print(len(b-r), sorted(b-r)[:3])
P
)"
fi
echo "$id ($prop): demo clean=$a patched=$b check rc=$c violations=$v tests: $t" | tee -a /tmp/seedcheck.log
rm -rf "$w" /tmp/sc_ev_$id
