#!/bin/bash
# tools/mkseed.sh ID: takes the uncommitted change in /tmp/wt as planted bug seeded/ID (demo.mjs, meta.json already there),
# verifies it (compiles, tests pass, demo passes without and fails with it), and resets /tmp/wt.
set -u
ID=$1; V=$(cd "$(dirname "$0")/.." && pwd); D=$V/seeded/$ID
[ -f "$D/demo.mjs" ] || [ -f "$D/demo.sh" ] || { echo "no demo"; exit 1; }
cp "$V/tools/seedkit/kit.mjs" "$D/kit.mjs"
[ -f "$D/demo.sh" ] || printf '#!/bin/bash\nexec timeout 120 node "$(dirname "$0")/demo.mjs"\n' > "$D/demo.sh"
if ! git -C /tmp/wt diff --quiet; then git -C /tmp/wt diff > "$D/patch.diff"; fi
[ -s "$D/patch.diff" ] || { echo "no patch"; exit 1; }
git -C /tmp/wt checkout -q -- . && git -C /tmp/wt fetch -q /repo HEAD && git -C /tmp/wt reset -q --hard FETCH_HEAD
cd /tmp/wt
bash "$D/demo.sh" >/tmp/demo0.log 2>&1; A=$?
git apply "$D/patch.diff" || { echo "patch does not apply"; exit 1; }
bash "$D/demo.sh" >/tmp/demo1.log 2>&1; B=$?
export PATH=/tmp/wt/node_modules/.bin:$PATH CI=1
tsc --pretty false --noEmit >/tmp/tsc.log 2>&1; T=$?
vitest --run --testTimeout=20000 --reporter=dot >/tmp/vt.log 2>&1; V=$?
vitest --run --config vitest.node.config.ts --reporter=dot >/tmp/vn.log 2>&1; W=$?
git checkout -q -- .
echo "$ID demo:$A->$B tsc:$T tests:$V/$W"
if [ $A = 0 ] && [ $B != 0 ] && [ $T = 0 ] && [ $V = 0 ] && [ $W = 0 ]; then echo "SEED OK $ID"; else tail -5 /tmp/demo0.log; grep -E "FAIL|Error" /tmp/vt.log | head -5; grep error /tmp/tsc.log | head; fi
