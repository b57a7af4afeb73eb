#!/bin/bash
# seed.sh ID [PROPERTY...]: confirms the planted bug seeded/ID in a scratch copy
# of /repo (demo passes without it, fails with it; it builds; the stable tests
# pass) and then runs the checks of the given properties (default: the one in
# meta.json) against it.  Only scratch copies are touched: they are bound over
# /repo and /verif in a mount namespace of their own.
id=${1:?}; shift
tier=${TIER:-quick}
props=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
w=/tmp/seed.$id
rm -rf "/tmp/seed.$id"; mkdir -p $w
cp -a /repo $w/repo; git -C $w/repo checkout -q -- .
git clone -q /verif $w/verif 2>/dev/null; (cd /verif && git ls-files -mo --exclude-standard | grep -v ^seeded/ | tar cf - -T - 2>/dev/null) | tar xf - -C $w/verif
mkdir -p $w/verif/evidence $w/verif/replays $w/demo
cp -a /verif/seeded/$id/. $w/demo/; rm -f $w/demo/*.diff $w/demo/meta.json
unshare -m bash -s <<EOS
mount --bind $w/repo /repo; 
cp /verif/seeded/$id/patch.diff $w/patch.diff
mount --bind $w/verif /verif; cd /repo
run() { timeout 300 bash $w/demo/demo.sh >$w/demo.\$1.log 2>&1; echo "demo \$1: \$?"; }
run clean; [ -z "\$(git status --porcelain)" ] || echo "DEMO LEAVES FILES: \$(git status --porcelain | head -3)"
git apply $w/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 1; }
bash /opt/vp/build.sh >$w/build.log 2>&1; echo "build: \$?"
run patched; tail -4 $w/demo.patched.log | cut -c1-220
if [ -z "$NOTESTS" ]; then
bash /opt/vp/test.sh $w/out.json >/dev/null 2>&1
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$w/out.json'))
def names(d,k):
    v=d.get(k,[]); return set(v if isinstance(v,list) else v.keys())
st=names(b,'stable') or names(b,'passed') or names(b,'tests')
ps=names(o,'passed') or names(o,'pass')
print('tests: stable',len(st),'passed',len(ps),'broken',sorted(st-ps)[:5])
PY
fi
for p in $props; do
  s=\$(date +%s); VERIF_SEED=\${VERIF_SEED:-1} VERIF_TIER=$tier timeout 900 python3 /verif/check.py \$p $tier >$w/check.\$p.log 2>&1; rc=\$?
  echo "check \$p: rc=\$rc \$(( \$(date +%s) - s )) s"; grep -E "VIOLATION|KNOWN|ERROR" $w/check.\$p.log | head -3 | cut -c1-300
done
EOS
[ -n "$KEEP" ] || rm -rf "/tmp/seed.$id"
