#!/bin/bash
# catch.sh [ID ...]: run the check of each planted bug against a scratch copy of /repo with the bug; one line per bug
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/catch-XXXX); cp -a /repo "$w/repo"
  git -C "$w/repo" apply "/verif/seeded/$d/patch.diff" || echo "$d DOES NOT APPLY"
  s=$(date +%s)
  MC_REPO="$w/repo" timeout 900 bin/check "$p" ${TIER:-quick} >"$w/out" 2>&1; rc=$?
  v=$(grep -c "^VIOLATION property=$p" "$w/out")
  if [ $rc = 1 ] && [ "$v" -gt 0 ]; then r=caught; else r=MISSED; fi
  echo "$d $p $r rc=$rc violations=$v $(( $(date +%s) - s ))s"
  [ $r = MISSED ] && tail -3 "$w/out"
  rm -rf "$w"
done
