#!/bin/bash
# trybugs.sh [ID...]: apply each planted bug to /repo, run the check of its property, undo
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: patch does not apply"; continue; }
  timeout 900 python3 check.py $p > /tmp/rc/out.$d 2>/tmp/rc/err.$d; rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(grep -c 'failed obligation' /tmp/rc/out.$d) obligations; $(grep '^VIOLATION' /tmp/rc/out.$d) $(grep -E '^undecided|^property=' /tmp/rc/out.$d | cut -c1-300) $(tail -1 /tmp/rc/err.$d | cut -c1-12)"
done
git -C /repo status --short
