#!/bin/bash
# tools/try_bug.sh <seeded id>: confirms a planted bug in /repo (build, tests, demo), runs its property's check, undoes it.
d=/verif/seeded/$1
p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $d/meta.json)
cd /repo || exit 2
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo dirty"; exit 2; }
bash $d/demo.sh >/tmp/demo.out 2>&1; clean=$?
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/build.out 2>&1; b=$?
bash /opt/vp/test.sh /tmp/res.json >/dev/null 2>&1
t=$(python3 - <<'P'
import json
r=json.load(open('/tmp/res.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(str(r)[:0], end='')
def passed(x): return set(x.get('passed', x.get('stable', [])))
base=b.get('stable') or b.get('passed') or b
base=set(base if isinstance(base,list) else base.keys())
print('missing', len(base-passed(r)), 'of', len(base))
P
)
bash $d/demo.sh >/tmp/demo2.out 2>&1; bug=$?
out=$(/verif/bin/check $p quick 2>&1); c=$?
git checkout -q -- .
echo "$1 $p: clean demo $clean, build $b, tests $t, demo with bug $bug, check exit $c: $(echo "$out" | grep -c VIOLATION) violation lines"
[ $c = 1 ] || echo "$out" | tail -5
echo "$out" | grep -E '^\[' | head -3 | cut -c1-300
