#!/bin/bash
# tryseed.sh ID [property...]: applies seeded/ID to a scratch copy of /repo, builds and runs the stable tests there, runs the demo with
# and without the change, and the given checks (default: its property's) against the copy.
# NOTEST=1 skips the repository's tests.
id=$1; shift
V=$(dirname "$(dirname "$(readlink -f "$0")")")
S=$V/seeded/$id
W=/tmp/seed-$id
rm -rf "$W"; mkdir -p "$W"
git -C /repo archive HEAD | tar -x -C "$W"
mkdir -p "$W-d"; cp "$S"/* "$W-d"/ 2>/dev/null; rm -f "$W-d"/*.diff "$W-d"/meta.json
if [ -z "$NODEMO" ]; then
(cd "$W" && timeout 300 bash "$W-d/demo.sh" >"$W-d/clean.log" 2>&1); echo "demo clean: $?"
fi
(cd "$W" && git init -q . 2>/dev/null; git apply "$S/patch.diff") || { echo "DOES NOT APPLY"; exit 1; }
if [ -z "$NODEMO" ]; then
(cd "$W" && timeout 300 bash "$W-d/demo.sh" >"$W-d/bug.log" 2>&1); echo "demo patched: $?"; tail -2 "$W-d/bug.log"
fi
if [ -z "$NOTEST" ]; then
    export CC=gcc CXX=g++
    (cmake -S "$W" -B "$W/_b" -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo >/dev/null && ninja -C "$W/_b" Tecs-tests Tecs-tests-unchecked Tecs-benchmark) >"$W-d/build.log" 2>&1 || { echo BUILD FAILED; tail -5 "$W-d/build.log"; }
    R=$W/_b/vp-run; mkdir -p "$R"; cd "$R"
    for t in Tecs-tests Tecs-tests-unchecked Tecs-benchmark; do
        stdbuf -oL timeout -k 5 120 "$W/_b/tests/$t" > $t.log 2>&1; echo $? > $t.rc
    done
    python3 /opt/vp/tecs_lines.py "$R" > "$R/result.lines"
    python3 /opt/vp/results.py "$R/out.json" "lines:$R/result.lines" >/dev/null
    python3 - "$R/out.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
base=b if isinstance(b,list) else b.get('passed') or b.get('stable') or b.get('tests')
miss=[t for t in base if t not in o['passed']]
print("tests: missing", len(miss), miss[:3])
P
fi
cd "$V"
props=${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
[ "$props" = none ] && props=
for p in $props; do
    VERIF_REPO=$W VERIF_BUILD=/tmp/seed-build-$id VERIF_OUT=/tmp/seed-out VERIF_EVIDENCE=/tmp/seed-out/ev python3 lib/check.py $p ${TIER:-quick} > "$W-d/$p.log" 2>&1; rc=$?
    echo "check $p: $rc $(grep -c '^VIOLATION' "$W-d/$p.log") $(grep -m1 -E 'rejects|MACHINERY|VIOLATION' "$W-d/$p.log" | cut -c1-300)"
done
[ -z "$KEEP" ] && rm -rf "$W" "$W-d" /tmp/seed-build-$id
exit 0
