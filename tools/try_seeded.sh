#!/bin/bash
# Applies planted bugs to /repo one at a time, runs the quick check of their property and undoes them.
cd /verif || exit 1
for id in "${@:-$(ls seeded)}"; do for i in $id; do
    prop=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
    git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
    git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i: does not apply"; continue; }
    t=$(date +%s)
    out=$(./check.sh "$prop" 2>&1); rc=$?
    git -C /repo checkout -q -- .
    echo "$i $prop rc=$rc $(( $(date +%s) - t ))s $(echo "$out" | grep -E "^(VIOLATION|violation|lamsim:.*runs in)" | cut -c1-220 | tr '\n' '|')"
done; done
