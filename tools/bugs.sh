#!/bin/bash
# usage: bugs.sh [ID...]  - run the checks against the planted bugs
# (environment: CHECKS="C01 C02" to run other checks than the bug's own)
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
    prop=$(python3 -c "import json; print(json.load(open('seeded/$id/meta.json'))['property'])")
    git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id does not apply"; continue; }
    for p in ${CHECKS:-$prop}; do
        bin/check $p >/tmp/bugs.out 2>&1
        echo "$id $p $? $(grep -c '^VIOLATION' /tmp/bugs.out) $(grep '"class"' /tmp/bugs.out | head -1) $(grep ' s: ' /tmp/bugs.out | head -1)"
    done
    git -C /repo checkout -q -- .
done
