#!/bin/bash
# seedrun.sh ID...: run the check of each planted bug on a scratch clone of /repo with the bug applied (developer tool)
W=/tmp/sr/repo; mkdir -p /tmp/sr; [ -d $W ] || git clone -q /repo $W
for id in "$@"; do
  git -C $W checkout -q -- .; git -C $W apply -q /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  P=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])"); t0=$(date +%s)
  cd /verif && CDV_REPO=$W VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt check.py $P > /tmp/sr/$id.log 2>&1; rc=$?
  echo "$id $P rc=$rc $(( $(date +%s) - t0 ))s $(grep -c '^VIOLATION' /tmp/sr/$id.log) $(grep '^VIOLATION' /tmp/sr/$id.log | head -1)"
done
git -C $W checkout -q -- .
