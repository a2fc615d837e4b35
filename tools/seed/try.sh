#!/bin/bash
# try.sh <id> [check ids...]: in a private mount namespace with copies of /repo and /verif,
# confirms the planted bug (builds, stable tests, demo) and runs the checks against it.
id=$1; shift
W=/tmp/try-$id; rm -rf "$W"; mkdir -p "$W"
cp -a /repo "$W/repo"; mkdir "$W/verif"; cp -a /verif/. "$W/verif/"
cp -a /verif/seeded/$id "$W/seed"
checks="$*"; [ -z "$checks" ] && checks=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
unshare -Urm bash -s <<X > "$W/log" 2>&1
mount --bind "$W/repo" /repo; mount --bind "$W/verif" /verif
cd /repo; git checkout -q -- . ; git clean -qfd
say() { echo "=== \$*" ; echo "\$*" >> "$W/res"; }
if [ -z "$SKIP" ]; then
bash /opt/vp/build.sh < /dev/null > "$W/b0" 2>&1 || say BUILD0-FAILED
(cd /repo; bash $W/seed/demo.sh < /dev/null) > "$W/d0" 2>&1; say "demo-clean rc=\$?"
fi
git apply $W/seed/patch.diff || say APPLY-FAILED
if [ -z "$SKIP" ]; then
bash /opt/vp/test.sh $W/t.json < /dev/null > "$W/t" 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
bl=b.get('stable') or b.get('passed') or b
if isinstance(bl,dict): bl=bl.get('passed',[])
miss=[x for x in bl if x not in t['passed']]
open('$W/res','a').write('tests missing=%d of %d %s\n'%(len(miss),len(bl),miss[:2]))
P
(cd /repo; bash $W/seed/demo.sh < /dev/null) > "$W/d1" 2>&1; say "demo-bug rc=\$?"
fi
cd /verif
for c in $checks; do VERIF_SEED=\${VERIF_SEED:-1} timeout 900 python3 check.py \$c > "$W/c-\$c" 2>&1 < /dev/null; rc=\$?
 say "check \$c rc=\$rc \$(grep -m1 '^->' $W/c-\$c | cut -c1-110)"; done
X
echo "$id: $(tr '\n' '|' < "$W/res")"
[ -z "$KEEP" ] && rm -rf "$W"
