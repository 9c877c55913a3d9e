#!/bin/bash
# mut.sh FILE(under src/v8serialize) PYTHON-EXPR PROP...: edit a scratch copy (t -> t) and run checks on it.
here=$(cd "$(dirname "$0")/.." && pwd)
f=$1; e=$2; shift 2
d=$(mktemp -d /tmp/mut.XXXXXX)
mkdir -p "$d/repo" && cp -a /repo/src "$d/repo/" && cp -a /repo/test "$d/repo/" && cp /repo/pyproject.toml "$d/repo/"
python3 - "$d/repo/src/v8serialize/$f" "$e" <<'X' || { rm -rf "$d"; exit 9; }
import sys
p, e = sys.argv[1:]
t = open(p).read()
n = eval(e)
assert n != t, "no change"
open(p, "w").write(n)
X
for p in "$@"; do
  if [ "$p" = T ]; then (cd "$d/repo" && PYTHONPATH="$d/repo/src" /opt/venv/bin/python -m pytest -q -x test 2>&1 | tail -1); continue; fi
  SIM_REPO="$d/repo" "$here/check" "$p" --no-shrink $MUT_ARGS > "$d/out" 2>&1; c=$?
  echo "$p rc=$c $(grep -m1 -A1 '^VIOLATION' "$d/out" | tail -1 | cut -c1-220)"
  [ $c = 2 ] && tail -20 "$d/out"
done
rm -rf "$d"
