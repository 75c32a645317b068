#!/bin/bash
# Runs the check of each planted bug (all, or the ids given) against a scratch copy with the bug.
cd /verif/seeded; ids=${*:-$(ls)}
one() {
  id=$1; W=/tmp/catch.$id; rm -rf "$W"; mkdir "$W"; cp -a /repo "$W/repo"; cp -a /verif/sim /verif/env.sh /verif/check.sh /verif/known /verif/known_findings.txt "$W/" 2>/dev/null
  git -C "$W/repo" checkout -q -- .; git -C "$W/repo" apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; return; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  s=$(date +%s)
  GTFSVERIF_REPO=$W/repo VERIF_SEED=1 VERIF_TIER=quick bash "$W/check.sh" $p > "$W/log" 2>&1; rc=$?
  echo "$id $p rc=$rc $(($(date +%s)-s))s $(grep -m1 VIOLATION "$W/log" | cut -c1-150) $(grep -m1 '^ ' $W/log | cut -c1-150)"
  [ $rc = 0 ] && cp $W/log /tmp/catch_$id.log
  rm -rf "$W"
}
for i in $ids; do one $i; done
