#!/bin/bash
# runs each seed's check against a scratch copy with the patch; usage: runseeds.sh [id...]
cd /verif
ids="$@"; [ -z "$ids" ] && ids=$(ls seeded)
for i in $ids; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  d=$(mktemp -d /tmp/rs.XXXX); cp -a /repo $d/repo; (cd $d/repo && git apply /verif/seeded/$i/patch.diff)
  s=$(date +%s); out=$(VERIF_REPO=$d/repo ./check.sh $p -noev 2>&1); rc=$?; e=$(date +%s)
  echo "$i $p rc=$rc $((e-s))s $(echo "$out" | grep -m1 VIOLATION)"
  rm -rf "$d"
done
