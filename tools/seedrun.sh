#!/bin/bash
# seedrun.sh ID [PROP...]: development aid. In a private copy of /repo (bind-mounted over /repo inside a user namespace)
# confirms a planted bug (applies, builds, passes the tests, demo) and runs the checks of PROP (default: its property).
id="$1"; shift
S=/verif/seeded/$id
props="${*:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}"
w=$(mktemp -d /tmp/sw-XXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo/. "$w/"
cat > "$w.sh" <<X
mount --bind $w /repo; cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $S/demo.sh >$w.d0 2>&1; d0=\$?
git apply $S/patch.diff || { echo "$id: DOES NOT APPLY"; exit; }
bash /opt/vp/build.sh >$w.b 2>&1 || { echo "$id: NO BUILD"; cat $w.b; exit; }
bash /opt/vp/test.sh $w.json >/dev/null 2>&1
python3 - <<Y
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$w.json'))
def passed(x):
    if isinstance(x,dict):
        for k in ('passed','pass','stable','tests'):
            if k in x: return passed(x[k])
        return {k for k,v in x.items() if v in ('pass','passed',True)}
    return set(x)
m=passed(b)-passed(o)
print('$id: tests', 'OK' if not m else 'BROKEN %s'%sorted(m)[:5], len(passed(b)))
Y
timeout 300 bash $S/demo.sh >$w.d1 2>&1; d1=\$?
echo "$id: demo unchanged=\$d0 patched=\$d1"
[ \$d0 = 0 ] || head -20 $w.d0
[ -n "$SHOW" ] && tail -20 $w.d1
for p in $props; do
  s=\$(date +%s); (cd /verif; VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick} timeout 900 ./check.sh \$p >$w.c 2>$w.ce); rc=\$?
  echo "$id: \$p rc=\$rc \$((\$(date +%s)-s))s \$(grep -m1 VIOLATION $w.c)"
  [ \$rc = 1 ] || { tail -3 $w.c; tail -3 $w.ce; }
done
X
unshare -Urm bash "$w.sh"
rm -f "$w".*
