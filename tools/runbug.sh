#!/bin/bash
# runbug.sh ID [PROP...]: applies a planted change to /repo, runs the checks
# of its property (or of those given) and undoes it.
id=$1; shift
S=/verif/seeded/$id
ps="$*"; [ -n "$ps" ] || ps=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo apply $S/patch.diff || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for p in $ps; do
  t0=$(date +%s); out=$(/verif/check $p quick 2>&1); rc=$?
  echo "$id $p rc=$rc $(( $(date +%s) - t0 ))s: $(echo "$out" | grep -v '^VIOLATION' | cut -c1-160 | head -2 | tr '\n' '|')"
done
