#!/bin/bash
# Try one planted bug: tools/seedcheck.sh ID [check ids...]  (default: its own property)
# builds a scratch copy of /repo, runs the demo without and with the patch,
# the repository's tests with the patch, and the checks against it.
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
S=$V/seeded/$ID
. /opt/vp/env.sh
W=$(mktemp -d /tmp/seedcheck.XXXXXX)
trap '/usr/bin/env rm -rf "$W"' EXIT
mkdir "$W/repo" && cp -a /repo/. "$W/repo/"
PROP=$(python -c "import json;print(json.load(open('$S/meta.json'))['property'])")
mkdir "$W/demo"; cp "$S"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W/demo/meta.json"
cd "$W/repo"
(unset PYTHONPATH; timeout 300 bash "$W/demo/demo.sh" > "$W/d0" 2>&1); r0=$?
git apply "$S/patch.diff" || { echo "$ID: patch does not apply"; exit 2; }
(timeout 300 bash "$W/demo/demo.sh" > "$W/d1" 2>&1); r1=$?
echo "$ID [$PROP] demo clean=$r0 patched=$r1: $(tail -1 "$W/d1" | cut -c1-150)"
[ $r0 = 0 ] || tail -5 "$W/d0"
if [ -z "$NOTESTS" ]; then
  mkdir "$W/cwd"; cd "$W/cwd"
  PYTHONPATH="$W/repo/src" timeout 600 python -m pytest -q -x -p no:cacheprovider --rootdir="$W/repo" --timeout=300 \
    -p no:xdist --randomly-seed=1 --randomly-dont-reorganize "$W/repo/tests" > "$W/t" 2>&1
  echo "$ID tests: $(tail -1 "$W/t")"
fi
cd "$V"
for c in ${@:-$PROP}; do
  SIM_REPO="$W/repo" ./check $c --no-evidence > "$W/c" 2>&1; r=$?
  echo "$ID check $c exit=$r $(grep -h -v '^VIOL' "$W/c" | head -1 | cut -c1-180)"
done
