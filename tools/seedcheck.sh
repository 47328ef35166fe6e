#!/bin/bash
# seedcheck.sh SEED...: run the check of each seed's property against a copy of /repo with the seed applied
for s in "$@"; do
  rm -rf /tmp/sc /tmp/sc.out; cp -a /repo /tmp/sc; git -C /tmp/sc apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  t=$(date +%s); VC_REPO=/tmp/sc VC_BUILD=/tmp/sc.build VC_OUT=/tmp/sc.out python3 /verif/check.py $p > /tmp/sc.log 2>&1; rc=$?
  echo "$s: $p rc $rc $(( $(date +%s) - t ))s $(grep -c '^obligation not' /tmp/sc.log) obligations; $(grep '^failing input' /tmp/sc.log | head -1 | cut -c1-160); $(grep VIOLATION /tmp/sc.log)"
done
