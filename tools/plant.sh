#!/bin/bash
# tools/plant.sh ID [CHECK...]: verifies seeded/ID in a scratch copy (applies, tests pass, demo 0 -> nonzero)
# and says which of its property's check (or the CHECKs given) catches it.
S=/verif/seeded/$1; id=$1; shift
W=/tmp/plant.$id; rm -rf "$W"; cp -a /repo "$W"; cd "$W" || exit 1
git checkout -q -- . 
cp -r "$S" "$W.demo"; rm -f "$W.demo"/*.diff "$W.demo"/meta.json
(cd "$W" && timeout 300 bash "$W.demo/demo.sh" >/tmp/plant.$id.log 2>&1); echo "demo clean: $?"
git apply "$S/patch.diff" || { echo "DOES NOT APPLY"; exit 1; }
(cd "$W" && timeout 300 bash "$W.demo/demo.sh" >/tmp/plant.$id.log 2>&1); echo "demo patched: $?"; tail -2 /tmp/plant.$id.log
if [ -z "$NOTEST" ]; then
SK=(); for m in test_config test_countries test_countries_v1 test_freeze test_project_pipeline test_schema_countries test_skip_unreferenced; do SK+=(--ignore="tests/$m.py"); done
env LANG=C.UTF-8 COLUMNS=80 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 RUFF_NO_CACHE=true PATH=/opt/venv/bin:$PATH /opt/venv/bin/python -m pytest -q -n 0 -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=$W.xml "${SK[@]}" tests >$W.tests 2>&1 || true
grep -q "unrecognized arguments: -n" $W.tests && env LANG=C.UTF-8 COLUMNS=80 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 RUFF_NO_CACHE=true PATH=/opt/venv/bin:$PATH /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=$W.xml "${SK[@]}" tests >$W.tests 2>&1
python3 /opt/vp/results.py $W.json "junit:$W.xml" >/dev/null
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print('stable tests missing:', len(m), m[:3])
P
fi
prop=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cp -r /verif/mc /verif/check.py /verif/known_findings.json "$W.demo/"
for c in ${@:-$prop}; do (cd "$W.demo" && TURMS_REPO=$W timeout 900 /opt/venv/bin/python check.py $c > $W.check 2>&1); echo "$c exit $? $(grep -c VIOLATION $W.check) violations"; grep -A1 VIOLATION $W.check | sed -n 2p | cut -c1-250; done
rm -rf "$W" "$W.demo" "$W.xml" "$W.json" "$W.tests" "$W.check"
