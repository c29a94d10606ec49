#!/bin/bash
# tools/tryseed.sh ID [CHECK...]: applies seeded/ID to /repo, builds, runs the tests, the demo (before and after),
# and the property's check; undoes it. For development only.
set -u
id=$1; shift
S=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
git diff --quiet || { echo "repo is dirty"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "${NODEMO:-}" ]; then
  bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS (clean)"
  timeout 300 bash $S/demo.sh >/tmp/demo.out 2>&1; echo "demo clean: $?"
fi
git apply $S/patch.diff || { echo "does not apply"; exit 1; }
if [ -z "${NODEMO:-}" ]; then
  bash /opt/vp/build.sh >/dev/null 2>&1 || echo "BUILD FAILS"
  bash /opt/vp/test.sh /tmp/seed.json | tail -1
  timeout 300 bash $S/demo.sh >/tmp/demo.out 2>&1; echo "demo patched: $?"; tail -2 /tmp/demo.out
fi
cd /verif
for c in ${*:-$P}; do ./check $c > /tmp/seed.check 2>&1; echo "check $c: $?"; grep -a "VIOLATION\|ERROR\|^C[0-9]*:" /tmp/seed.check | cut -c1-300 | head -3; done
