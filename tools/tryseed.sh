#!/bin/bash
# tryseed.sh <seed id> [property...]: applies a planted bug to /repo, runs checks, undoes it
here=$(dirname "$(dirname "$(realpath "$0")")")
id=$1; shift
props=${*:-$(python3 -c "import json,sys; print(json.load(open(sys.argv[1]))['property'])" "$here/seeded/$id/meta.json")}
git -C /repo apply "$here/seeded/$id/patch.diff" || exit 3
for p in $props; do bash "$here/check.sh" $p quick 2>&1 | tail -4 | sed "s/^/[$id $p] /"; done
git -C /repo checkout -- .
