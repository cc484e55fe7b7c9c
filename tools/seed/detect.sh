#!/bin/bash
# detect.sh ID...: own property's check (or PROPS) against each planted bug, applied to a copy of /repo
cd ${VERIF:-/verif}
for id in "$@"; do
p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
w=/tmp/sd/dt.$$; rm -rf "$w"; cp -a /repo "$w"; git -C "$w" checkout -q -- .; git -C "$w" apply /verif/seeded/$id/patch.diff || continue
for q in ${PROPS:-$p}; do
s=$(date +%s); r=0; ZZ_REPO=$w VERIF_TIER=${TIER:-quick} VERIF_SEED=1 timeout 900 bin/check $q >/tmp/sd/$id.$q.det 2>&1 || r=$?
echo "$id $q rc=$r $(( $(date +%s)-s ))s $(grep -m1 VIOLATION /tmp/sd/$id.$q.det | cut -c1-100) $(grep -c VIOLATION /tmp/sd/$id.$q.det)"
done
rm -rf "$w"
done
