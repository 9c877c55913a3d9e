#!/bin/bash
# seeds.sh [ID...]: run each planted bug's own check against a scratch copy that has it.
here=$(cd "$(dirname "$0")/.." && pwd); cd "$here/seeded"
export MUT_ARGS="--no-shrink"
for i in ${@:-*}; do
  p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")
  [ -f ../sim/props/${p,,}.py ] || { echo "$i: no $p yet"; continue; }
  echo "$i: $(../tools/mutant.sh $i/patch.diff $p | cut -c1-160)"
done
