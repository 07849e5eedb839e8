#!/bin/bash
# tools/try_plants.sh [ids...]: runs each planted bug's own check on a scratch copy with the bug applied (development aid; prints caught/missed)
cd /verif; J=${J:-4}; OUT=${OUT:-/tmp/try}; mkdir -p $OUT
one() { id=$1; d=$(mktemp -d /tmp/try-XXXX); cp -a /repo $d/repo; (cd $d/repo && git apply /verif/seeded/$id/patch.diff) || { echo "NOAPPLY $id"; rm -rf "$d"; return; }
  pid=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  VERIF_REPO=$d/repo timeout 900 bin/check $pid > $OUT/$id.log 2>&1; rc=$?
  echo "$( [ $rc = 1 ] && grep -q "VIOLATION property=$pid" $OUT/$id.log && echo CAUGHT || echo "MISSED($rc)" ) $id $pid $(grep VIOLATION $OUT/$id.log | head -1 | grep -o 'no-failing.*')"
  rm -rf "$d"; }
export -f one; export OUT
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
printf '%s\n' $ids | xargs -P $J -I{} bash -c 'one {}'
