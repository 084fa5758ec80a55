#!/bin/bash
# run the check of its property on every planted bug (in a scratch copy); prints a table row each
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
for s in /verif/seeded/*; do
    rm -rf "$d/repo"; mkdir "$d/repo"; git -C /repo archive HEAD | tar -x -C "$d/repo"
    (cd "$d/repo" && git init -q . && git apply "$s/patch.diff") || { echo "$s does not apply"; continue; }
    p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
    o=$(VERIF_REPO=$d/repo /verif/check.py $p 2>&1)
    v=missed; grep -q "^VIOLATION property=$p" <<< "$o" && v=c; grep -q "no-failing-input-found" <<< "$o" && v=o
    echo "| $(basename $s) | $p | $v | $(grep 'not discharged' <<< "$o" | head -2 | sed 's/ *not discharged: //; s/ \[.*//' | paste -sd';') |"
done
