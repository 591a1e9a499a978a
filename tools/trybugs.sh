#!/bin/bash
# Runs the checks of the planted bugs' own properties (or those given) against copies with each bug.
# usage: tools/trybugs.sh [id ...]
cd "$(dirname "$0")/.."
ids=${@:-$(ls seeded)}
for id in $ids; do
  w=$(mktemp -d /tmp/bugXXXX)
  git clone -q /repo $w/r && git -C $w/r apply $PWD/seeded/$id/patch.diff
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  for q in ${PROPS:-$p}; do
    KIEL_REPO=$w/r python3 -m harness.check $q --tier quick > $w/out 2>&1; rc=$?
    echo "$id $q rc=$rc $(grep -o 'clause [a-z-]* fails ([0-9]* times)' $w/out | head -4 | tr '\n' ';')"
  done
  rm -rf "$w"
done
