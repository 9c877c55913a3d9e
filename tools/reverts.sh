#!/bin/bash
# reverts.sh [HASH=PROP,PROP...]...: undo each repair in a scratch copy and run the checks which should report it.
here=$(cd "$(dirname "$0")/.." && pwd)
for hp in "$@"; do
  h=${hp%%=*}; ps=${hp#*=}
  d=$(mktemp -d /tmp/revert.XXXXXX)
  mkdir -p "$d/repo"; cp -a /repo/src /repo/.git "$d/repo/"; (cd "$d/repo" && git reset -q --hard)
  cd "$d/repo" || exit 9
  if ! git revert -X theirs --no-commit "$h" >/dev/null 2>&1; then
    echo "$h CONFLICT $(git log -1 --format=%s $h)"; cd /; rm -rf "$d"; continue
  fi
  echo "$h $(git log -1 --format=%s $h)"
  for p in ${ps//,/ }; do
    SIM_REPO="$d/repo" "$here/check" "$p" --no-shrink > "$d/out" 2>&1; c=$?
    echo "    $p rc=$c $(grep -m1 -A1 '^VIOLATION' "$d/out" | tail -1 | cut -c1-170)"
  done
  cd /; rm -rf "$d"
done
