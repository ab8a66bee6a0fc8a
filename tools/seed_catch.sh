#!/bin/bash
# seed_catch.sh <id> [props...]: applies a planted bug to /repo, runs the checks (default: its own), undoes it.
here=$(cd "$(dirname "$0")/.." && pwd)
id=$1; shift
p=${*:-$(python3 -c "import json;print(json.load(open('$here/seeded/$id/meta.json'))['property'])")}
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
git -C /repo apply "$here/seeded/$id/patch.diff" || exit 1
for c in $p; do
    s=$(date +%s)
    o=$("$here/bin/check.sh" $c quick 2>&1); r=$?
    echo "$id $c: exit $r ($(( $(date +%s) - s )) s) $(echo "$o" | grep -v '^slowest\|^unconf' | tail -n 2 | cut -c1-300 | tr '\n' ' ')"
done
git -C /repo checkout -q -- .
