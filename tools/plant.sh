#!/bin/bash
# tools/plant.sh ID [notest] [PROP...]: tries a planted bug in a private copy of /repo bound over /repo in a mount namespace
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
T=1; [ "$1" = notest ] && { T=0; shift; }
W=/tmp/plant.$id; mkdir -p $W/ev; cp -a /repo $W/repo; cp -a $V/seeded/$id $W/demo
props="$*"; [ -z "$props" ] && props=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
unshare -Urm bash -c "
mount --bind $W/repo /repo; mount --bind $W/ev $V/evidence; export VERIF_SEED=1; cd /repo
bash /opt/vp/build.sh >$W/b0 2>&1 || { echo $id: base build failed; exit; }
timeout 300 bash $W/demo/demo.sh >$W/d0 2>&1; r=\$?; [ \$r = 0 ] || { echo $id: demo exits \$r on the clean tree; tail -5 $W/d0; exit; }
git apply $V/seeded/$id/patch.diff || { echo $id: patch does not apply; exit; }
bash /opt/vp/build.sh >$W/b1 2>&1 || { echo $id: build failed; tail -5 $W/b1; exit; }
timeout 300 bash $W/demo/demo.sh >$W/d1 2>&1; r=\$?; [ \$r = 0 ] && { echo $id: demo passes with the patch; exit; }
echo $id: demo exits \$r with the patch: \$(tail -1 $W/d1)
if [ $T = 1 ]; then bash /opt/vp/test.sh $W/t.json >/dev/null 2>&1; python3 - <<P
import json; b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
s=b.get('passed') or b.get('stable') or b.get('tests') or []
p=set(t['passed']); miss=[x for x in s if x not in p]
print('$id: tests', 'pass' if not miss else 'FAIL %d e.g. %s'%(len(miss),miss[:2]))
P
fi
for p in $props; do cd $V; timeout 900 python3 checks/run.py \$p --tier quick >$W/c.\$p 2>&1; echo $id: check \$p exit \$?; grep -m2 -E 'VIOLATION|CHECK-ERROR' $W/c.\$p | cut -c1-300; done
"
rm -rf "/tmp/plant.$id"
