#!/bin/bash
# tools/plant.sh ID [demo|tests|check|all] [check args]
# Try a planted bug in a private copy of /repo (mount namespace): demo without and with it, the stable tests, its check.
set -u
ID=$1; WHAT=${2:-all}; shift; shift || true
SRC=$(cd "$(dirname "$0")/.." && pwd)
D=/tmp/plant/$ID
rm -rf "/tmp/plant/$ID"; mkdir -p "$D"
cp -a /repo "$D/repo"; cp -a /opt/vp "$D/vp"; mkdir "$D/verif"
(cd "$SRC" && tar cf - --exclude=.git --exclude=replays --exclude=seeded .) | tar xf - -C "$D/verif"
mkdir -p "$D/verif/replays"; cp -a "$SRC/seeded/$ID" "$D/seed"
P=$(/opt/venv/bin/python -c "import json;print(json.load(open('$D/seed/meta.json'))['property'])")
cat > "$D/in.sh" <<I
mount --bind $D/repo /repo; mount --bind $D/vp /opt/vp; mount --bind $D/verif /verif
cd /repo; git checkout -q -- .
if [[ " demo all " == *" $WHAT "* ]]; then
timeout 300 bash $D/seed/demo.sh > $D/demo0.log 2>&1; echo "$ID demo clean rc=\$?"
fi
git apply $D/seed/patch.diff || { echo "$ID patch does not apply"; exit 1; }
bash /opt/vp/build.sh > $D/build.log 2>&1 || { echo "$ID build failed"; tail -3 $D/build.log; exit 1; }
if [[ " demo all " == *" $WHAT "* ]]; then
timeout 300 bash $D/seed/demo.sh > $D/demo1.log 2>&1; echo "$ID demo bug rc=\$?"
fi
if [[ " check all " == *" $WHAT "* ]]; then
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python check.py $P $@ > $D/check.log 2>&1; echo "$ID check $P rc=\$? \$(grep -c VIOLATION $D/check.log)"; grep -m2 violated $D/check.log | cut -c1-250
fi
if [[ " tests all " == *" $WHAT "* ]]; then
bash /opt/vp/test.sh $D/out.json > $D/test.log 2>&1
/opt/venv/bin/python - <<'Y'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$D/out.json'))
def g(d):
    for k in ('passed','pass','stable','tests'):
        if k in d: return set(d[k])
lost=g(b)-g(o)
print('$ID tests lost', len(lost), sorted(lost)[:5])
Y
fi
I
nice -n 5 unshare -Urm bash "$D/in.sh"
cp "$D"/*.log "/tmp/plant/" 2>/dev/null
[ "${KEEP:-}" ] || rm -rf "/tmp/plant/$ID"
