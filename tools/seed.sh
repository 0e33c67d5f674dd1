#!/bin/bash
# seed.sh ID [checks...]: confirm a planted bug (build, tests, demo both ways) and run the checks against it
id=$1; shift; s=/verif/seeded/$id; cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 2; }
if [ -z "$SKIPDEMO" ]; then bash $s/demo.sh > /tmp/d0.txt 2>&1; echo "demo clean: $?"; fi
git apply $s/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIPDEMO" ]; then
bash /opt/vp/build.sh > /tmp/b.txt 2>&1 || echo BUILD FAILS
bash /opt/vp/test.sh /tmp/o.json > /tmp/t.txt 2>&1; python3 -c "
import json; o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print('tests', {k:(len(v) if hasattr(v,'__len__') else v) for k,v in o.items()})"
bash $s/demo.sh > /tmp/d1.txt 2>&1; echo "demo patched: $?"; tail -2 /tmp/d1.txt; fi
cs="$*"; [ -z "$cs" ] && cs=$(python3 -c "import json; print(json.load(open('$s/meta.json'))['property'])")
for c in $cs; do (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check $c > /tmp/c.txt 2>&1; echo "$c exit $?"; grep -v '^proved' /tmp/c.txt | tail -4); done
