#!/bin/bash
# development aid: does the property's check report each seeded bug?  usage: seedcheck.sh [ID...]
cd /verif/seeded || exit 1
for id in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  t=$(mktemp -d /tmp/sc.XXXXXX)
  cp -a /repo "$t/repo"; git -C "$t/repo" apply /verif/seeded/$id/patch.diff || echo "PATCH FAILS $id"
  cp -a /verif/check.py /verif/engine /verif/harness /verif/stub /verif/tools /verif/known-findings.txt /verif/properties.jsonl "$t/" ; mkdir -p "$t/evidence" "$t/build"
  s=$(date +%s)
  VC_REPO="$t/repo" VERIF_SEED=1 python3 "$t/check.py" "$p" quick > "$t/out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(grep VIOLATION "$t/out" | head -1)"
  [ -n "$V" ] && head -c 1500 "$t"/build/replay/$p.txt
  rm -rf "$t"
done
