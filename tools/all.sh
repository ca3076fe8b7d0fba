#!/bin/bash
# all.sh: every claimed check on the current tree, one after another.
cd "$(dirname "$0")/.." || exit 2
for id in ${*:-$(python3 -c 'import json;print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"]])')}; do
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick ./run.sh $id > /tmp/all.$id.log 2>&1; r=$?
  echo "$id exit $r $(($(date +%s)-s)) s $(tail -1 /tmp/all.$id.log)"
done
