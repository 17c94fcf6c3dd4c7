#!/bin/bash
# tools/plant.sh ID...  : confirms planted bugs in a scratch copy and runs the matching check against them
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  d=$V/seeded/$id
  W=$(mktemp -d /tmp/plant.XXXXXX)
  cp -a /repo "$W/repo"
  prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
  git -C "$W/repo" apply "$d/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$W"; continue; }
  (cd /repo && bash "$d/demo.sh" >"$W/d0" 2>&1); r0=$?
  (cd "$W/repo" && bash "$d/demo.sh" >"$W/d1" 2>&1); r1=$?
  t=$(cd "$W/repo" && . /opt/vp/env.sh && PYTHONPATH="$W/repo/py" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 2>&1 | tail -1)
  [ -n "$NOCHECK" ] || { c=$(VERIF_REPO="$W/repo" "$V/check.sh" "$prop" quick 2>&1 | grep -m1 VIOLATION | cut -c1-200); }
  echo "$id [$prop] demo clean=$r0 bug=$r1 ($(tail -1 "$W/d1" | cut -c1-100)) | tests: $t | check: ${c:-MISSED}"
  c=
  rm -rf "$W"
done
