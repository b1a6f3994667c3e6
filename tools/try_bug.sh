#!/bin/bash
# tools/try_bug.sh SEED_DIR [CHECK...]: builds, tests, demonstrates and checks a planted bug in
# scratch copies of /repo and /verif that are mounted over the originals in a private namespace.
set -u
seed=$(realpath "$1"); shift
work=$(mktemp -d /tmp/bug-XXXXXX)
trap 'rm -rf "$work"' EXIT
cp -a /repo "$work/repo"
mkdir "$work/verif" "$work/demo"
(cd /verif && tar c --exclude=./seeded --exclude=./.git --exclude=./.cache/tmp .) | tar x -C "$work/verif"
cp "$seed/patch.diff" "$work/" && cp "$seed"/* "$work/demo/" && rm -f "$work"/demo/*.diff "$work/demo/meta.json"
prop=$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$seed/meta.json")
checks=${*:-$prop}
unshare -Urm bash -c '
set -u
mount --bind '$work'/repo /repo && mount --bind '$work'/verif /verif || exit 9
cd /repo && git checkout -q -- . && git apply '$work'/patch.diff || { echo "RESULT patch does not apply"; exit 1; }
bash /opt/vp/build.sh > '$work'/build.log 2>&1 || { tail -30 '$work'/build.log; echo "RESULT does not build"; exit 1; }
if [ -z "${NO_TESTS:-}" ]; then
bash /opt/vp/test.sh '$work'/t.json > '$work'/test.log 2>&1
python3 - <<P
import json
a=json.load(open("'$work'/t.json")); b=json.load(open("/opt/vp/BASELINE.json"))
base=b["stable"]
bad=sorted(set(a["failed"]) | (set(base)-set(a["passed"])))
print("RESULT tests:", len(a["passed"]), "passed", len(bad), "failed", bad[:5])
P
fi
timeout 300 bash '$work'/demo/demo.sh > '$work'/demo.log 2>&1; echo "RESULT demo with the patch: $?"; tail -3 '$work'/demo.log
cd /verif
for c in '"$checks"'; do python3 -m vf.check $c > '$work'/check.log 2>&1; echo "RESULT check $c: $?"; grep -m1 "^reason" '$work'/check.log | cut -c1-300; grep -m1 "^VIOLATION" '$work'/check.log || tail -2 '$work'/check.log | cut -c1-400; done
'
