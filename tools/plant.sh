#!/bin/bash
# plant.sh ID [CHECK...]: confirms a planted bug in scratch copies (bind-mounted over /repo and
# /verif in a private namespace) and runs the named checks (default: its own property) on it.
set -u
ID=$1; shift
S=${PLANT:-/tmp/pl}
mkdir -p $S
[ -d $S/repo ] || cp -a /repo $S/repo
mkdir -p $S/verif
rsync -a --delete --exclude build --exclude evidence /verif/ $S/verif/ 2>/dev/null || { rm -rf $S/verif; cp -a /verif $S/verif; }
[ -d $S/verif/build ] || cp -a /verif/build $S/verif/build
HEAD=$(git -C /repo rev-parse HEAD)
git -C $S/repo fetch -q /repo HEAD 2>/dev/null; git -C $S/repo checkout -q -f $HEAD
export ID; export CHECKS="$*"; export S
unshare -Urm bash -c '
mount --bind $S/repo /repo; mount --bind $S/verif /verif
cd /repo
D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open(\"$D/meta.json\"))[\"property\"])")
if [ -z "${SKIPBASE:-}" ]; then
bash /opt/vp/build.sh > $S/build0.log 2>&1 || { echo BUILD0 FAILED; tail -20 $S/build0.log; exit 3; }
bash $D/demo.sh > $S/demo0.log 2>&1; echo "demo unchanged: $? (want 0)"; tail -5 $S/demo0.log
fi
git apply $D/patch.diff || { echo APPLY FAILED; exit 3; }
bash /opt/vp/build.sh > $S/build1.log 2>&1 || { echo BUILD FAILED; tail -30 $S/build1.log; git checkout -q -- .; exit 3; }
bash $D/demo.sh > $S/demo1.log 2>&1; echo "demo patched: $? (want nonzero)"; tail -5 $S/demo1.log
if [ -z "${SKIPTEST:-}" ]; then
bash /opt/vp/test.sh $S/out.json > $S/test.log 2>&1
python3 - <<X
import json
d=json.load(open("$S/out.json")); b=json.load(open("/opt/vp/BASELINE.json"))
def ids(x): return x
print("tests:", {k:(len(v) if hasattr(v,"__len__") else v) for k,v in d.items()})
X
fi
for c in ${CHECKS:-$P}; do
  timeout 900 python3 lib/check.py >/dev/null 2>&1
  (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 lib/check.py $c --tier quick > $S/check.$c.log 2>&1; echo "check $c: $?"; grep -m3 VIOLATION $S/check.$c.log)
done
git checkout -q -- .
'
