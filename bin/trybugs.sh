#!/bin/bash
# trybugs.sh ID...: development tool: run the owning property's quick check against each planted bug, in a scratch copy of /repo
V=$(cd "$(dirname "$0")/.." && pwd)
B=${BUGS:-/verif/seeded}
for id in "$@"; do
  p=${PROP:-$(python3 -c "import json;print(json.load(open('$B/$id/meta.json'))['property'])")}
  W=/tmp/try.$id.$$; git clone -q /repo $W
  git -C $W apply "$B/$id/patch.diff" || { echo "$id: does not apply"; rm -rf $W; continue; }
  s=$(date +%s); out=$(cd $V && VF_REPO=$W VERIF_SEED=${SEED:-1} timeout 900 python3 bin/check.py $p ${TIER:-quick} 2>&1); rc=$?
  rm -rf $W
  n=$(grep -c "^VIOLATION property=$p" <<<"$out")
  [ $rc -eq 1 ] && [ $n -gt 0 ] && r=caught || r="MISSED(rc=$rc)"
  echo "$id $p $r $(( $(date +%s)-s ))s $(grep "^$p: " <<<"$out" | head -1 | cut -c1-${COLS:-150})"
done
