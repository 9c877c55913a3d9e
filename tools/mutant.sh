#!/bin/bash
# mutant.sh PATCH PROP...: run checks against a scratch copy of /repo with PATCH applied.
# With no props: all claimed checks.  -R as first argument reverses the patch.
here=$(cd "$(dirname "$0")/.." && pwd)
rev=; [ "$1" = -R ] && { rev=-R; shift; }
patch=$(realpath "$1"); shift
d=$(mktemp -d /tmp/mutant.XXXXXX)
mkdir -p "$d/repo" && cp -a /repo/src "$d/repo/" && cp -a /repo/.git "$d/repo/" 2>/dev/null
(cd "$d/repo" && git apply $rev "$patch") || { rm -rf "$d"; exit 9; }
props=("$@"); [ ${#props[@]} = 0 ] && props=($(python3 -c "import json;print(*[c['property'] for c in json.load(open('$here/MANIFEST.json'))['checks']])"))
rc=0
for p in "${props[@]}"; do
  SIM_REPO="$d/repo" "$here/check" "$p" $MUT_ARGS > "$d/out" 2>&1; c=$?
  echo "$p rc=$c $(grep -m1 -A1 '^VIOLATION' "$d/out" | tail -1 | cut -c1-200)"
  [ $c = 2 ] && tail -20 "$d/out"
done
rm -rf "$d"
