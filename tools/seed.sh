#!/bin/bash
# tools/seed.sh NAME [check ids...]: validates a planted bug in a scratch copy of /repo and runs checks against that copy
name=$1; shift
d=/verif/seeded/$name
w=$(mktemp -d /tmp/seedw.XXXXXX)
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/r"
cd "$w/r" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
mkdir "$w/demo"; cp -a "$d/." "$w/demo/"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
bash "$w/demo/demo.sh" >"$w/o0" 2>&1; a=$?
git apply "$d/patch.diff" || { echo "$name: patch does not apply"; exit 1; }
bash "$w/demo/demo.sh" >"$w/o1" 2>&1; b=$?
if [ -z "$NOTEST" ]; then
/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 4 --timeout=300 --continue-on-collection-errors tests docs/examples misc 2>&1 | tail -3 >"$w/t"
t=$(tail -1 "$w/t"); fi
echo "$name: demo clean=$a patched=$b tests: $t"
[ $a -ne 0 ] && tail -5 "$w/o0"
[ $b -eq 0 ] && tail -5 "$w/o1"
[ -n "$SHOW" ] && tail -4 "$w/o1"
for c in "$@"; do
  ( cd /verif; MC_REPO="$w/r" MC_EVIDENCE="$w/ev" MC_MAX_REPORT=2 timeout 900 ./run.sh $c --tier quick >"$w/c" 2>&1; echo "   $c exit=$?"; grep -A1 VIOLATION "$w/c" | cut -c1-220 | head -${LINES_:-4}; tail -1 "$w/c" )
done
