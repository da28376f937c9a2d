#!/bin/bash
# seedcheck.sh ID...: run the quick check of each planted bug's property in scratch copies of /repo (with the patch) and of the tree this script lies in
V=$(cd "$(dirname "$0")/.." && pwd); R=${VERIF_REPO:-/repo}
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$id/meta.json'))['property'])")
  w=$(mktemp -d /tmp/sc.XXXXXX)
  cp -a $R $w/repo; mkdir $w/verif; cp -a $V/run.py $V/harness $V/spec $V/KNOWN_FINDINGS.txt $w/verif/
  git -C $w/repo apply $V/seeded/$id/patch.diff || echo "$id PATCH DOES NOT APPLY"
  s=$(date +%s)
  VERIF_REPO=$w/repo VERIF_SEED=${VERIF_SEED:-1} python3 $w/verif/run.py check $p --tier ${TIER:-quick} > $w/out 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep -c '^VIOLATION' $w/out) $(grep -v '^VIOLATION' $w/out | tail -1 | cut -c1-200)"
  if [ -n "$SHOW" ]; then head -c 1500 $w/out; for f in $(ls $w/verif/evidence/replay/* 2>/dev/null | head -3); do head -c 500 $f; echo; done; fi
  rm -rf "$w"
done
