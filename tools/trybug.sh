#!/bin/bash
# trybug.sh ID : apply seeded/ID, build, run demo (expect fail), run its check (expect VIOLATION), undo, (optionally -d: demo on clean tree too)
V=$(cd "$(dirname "$0")/.." && pwd); B=$V/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
undo() { git -C /repo checkout -- . ; }
trap undo EXIT
git -C /repo apply $B/patch.diff || exit 9
if [ -z "$NODEMO" ]; then
bash /opt/vp/build.sh > /tmp/trybuild.log 2>&1 || { tail -20 /tmp/trybuild.log; echo "$1 BUILD FAILED"; exit 8; }
(cd /repo && bash $B/demo.sh > /tmp/trydemo.log 2>&1); echo "$1 demo with patch rc=$? $(tail -1 /tmp/trydemo.log)"
fi
cd $V; for c in ${CHECKS:-$P}; do s=$(date +%s); VERIF_SEED=${SEED:-1} python3 vf.py check $c > /tmp/trycheck.log 2>&1; echo "$1 check $c rc=$? $(grep -m1 -E 'VIOLATION|error' /tmp/trycheck.log) $(( $(date +%s)-s ))s"; done
