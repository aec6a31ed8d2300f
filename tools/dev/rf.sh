# rf.sh NAME [props...]
N=$1; shift
[ -d /tmp/rf/v ] || { mkdir /tmp/rf/v; cp -a /verif/. /tmp/rf/v/; rm -rf /tmp/rf/v/.git; }
rsync -a /verif/harness/ /tmp/rf/v/harness/ 2>/dev/null || cp -a /verif/harness/. /tmp/rf/v/harness/
cp /verif/engine/gosym /tmp/rf/v/engine/gosym
P="$@"; [ -n "$P" ] || P=$(python3 -c "import json;print(' '.join(c['property'] if 'property' in c else c['id'] for c in json.load(open('/verif/MANIFEST.json'))['checks']))")
for p in $P; do
 s=$(date +%s)
 GOSYM_REPO=/tmp/rf/$N GOSYM_VERIF=/tmp/rf/v GOSYM_MEM=6 timeout 300 /tmp/rf/v/engine/gosym -prop $p -noev -j 5 -budget 100 > /tmp/rf/$N.$p.out 2>&1
 rc=$?
 echo "$N $p rc=$rc $(( $(date +%s)-s ))s $(grep -ciE 'not exhaustive|exhausted=false|budget' /tmp/rf/$N.$p.out)"
done
