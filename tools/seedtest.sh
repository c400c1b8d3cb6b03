#!/bin/bash
# seedtest.sh <seed id> [extra property ids]: applies a planted bug to /repo, builds, runs the stable tests, the demo and the property's check, then undoes it
S=/verif/seeded/$1; P="$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])") ${@:2}"
cd /repo; [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed_build0.log 2>&1; bash $S/demo.sh >/tmp/seed_demo0.log 2>&1; D0=$?
git apply $S/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/seed_build.log 2>&1 || { echo "$1: DOES NOT BUILD"; tail -5 /tmp/seed_build.log; exit 2; }
bash $S/demo.sh >/tmp/seed_demo.log 2>&1; D1=$?
bash /opt/vp/test.sh /tmp/seed_o.json >/dev/null 2>&1
M=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/seed_o.json'));s=b.get('stable') or b.get('passed') or b.get('tests');print(len(set(s)-set(o['passed'])))")
for p in $P; do timeout 900 python3 /verif/tools/run.py $p > /tmp/seed_chk_$p.log 2>&1; echo "$1: demo clean=$D0 planted=$D1 stable-missing=$M check $p rc=$? $(grep -c '^VIOLATION property='$p /tmp/seed_chk_$p.log) violations: $(grep -m1 -A0 'label\|VIOLATION' /tmp/seed_chk_$p.log | cut -c1-200)"; done
