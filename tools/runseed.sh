#!/bin/bash
# runseed.sh ID...: run the property's check against each planted bug, in a scratch copy of /repo
for id in "$@"; do
 t=$(mktemp -d /tmp/rs_XXXX); git clone -q /repo $t/r; (cd $t/r && git apply /verif/seeded/$id/patch.diff) || echo apply failed
 p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
 s=$(date +%s); o=$(VP_REPO=$t/r VP_EVID=$t/ev /verif/bin/check ${P:-$p} 2>&1); rc=$?
 echo "== $id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -a VIOLATION | head -3)"
 rm -r $t
done
