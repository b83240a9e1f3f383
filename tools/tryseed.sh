#!/bin/bash
# development aid: try a planted bug in a private copy of /repo (bind-mounted over /repo in a namespace of its own).
# usage: tryseed.sh SEEDDIR [notest] [CHECK...]     prints build/tests/demo/check results
dir=$(realpath "$1"); shift
notest=; [ "$1" = notest ] && { notest=1; shift; }
id=$(basename "$dir")
w=/tmp/w/try-$id-$$
mkdir -p "$w/evidence" "$w/reports" "$w/demo"
cp -a /repo "$w/repo"
cp "$dir"/*.* "$w/demo/"; rm -f "$w"/demo/*.diff "$w"/demo/meta.json
export W=$w DIR=$dir NOTEST=$notest
unshare -Urm bash -c '
cd "$W/repo" && git apply "$DIR/patch.diff" || { echo "PATCH does not apply"; exit 9; }
mount --bind "$W/repo" /repo; mount --bind "$W/evidence" /verif/evidence; mount --bind "$W/reports" /opt/vp/reports
cd /repo
bash /opt/vp/build.sh >"$W/build.log" 2>&1 && echo "build ok" || { echo "BUILD FAILS"; exit 9; }
if [ -z "$NOTEST" ]; then
  bash /opt/vp/test.sh "$W/out.json" >"$W/test.log" 2>&1
  python3 - "$W/out.json" <<P
import json,sys
b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); p=set(json.load(open(sys.argv[1]))["passed"])
print("tests ok" if b<=p else "TESTS FAIL: %d %s" % (len(b-p), sorted(b-p)[:3]))
P
fi
bash "$W/demo/demo.sh" >"$W/demo.log" 2>&1; r=$?
[ $r -ne 0 ] && echo "demo fails with patch ($r)" || echo "DEMO PASSES WITH PATCH"
for c in "$@"; do
  s=$(date +%s)
  ( cd /verif && timeout 900 ./check $c >"$W/$c.log" 2>&1 ); r=$?
  echo "$c exit $r in $(( $(date +%s) - s )) s: $(grep -c VIOLATION "$W/$c.log") $(grep -m1 "^  \[" "$W/$c.log" | cut -c1-200)"
done
' _ "$@"
(cd /repo && bash "$w/demo/demo.sh" >"$w/demo0.log" 2>&1) && echo "demo passes without" || { echo "DEMO FAILS WITHOUT PATCH"; tail -3 "$w/demo0.log"; }
rm -rf "$w/repo" "$w/evidence"
