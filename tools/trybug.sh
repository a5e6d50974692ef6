#!/bin/bash
# trybug.sh DIR [SECONDS] [CHECK...]: applies DIR/patch.diff to a scratch copy of /repo, builds and tests it there, runs the demonstration on both, then the checks (default: that of the property in meta.json).
d=$(realpath "$1"); secs=${2:-10}; shift; shift 2>/dev/null
W=$(mktemp -d /tmp/trybug.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; mkdir "$W/vp"
for f in build.sh test.sh run_tests.py; do sed "s#/repo#$W/repo#g; s#/opt/vp/#$W/vp/#g" /opt/vp/$f > "$W/vp/$f"; done
rm -rf "$W/repo/_build"; rm -rf "$W/demo"; mkdir "$W/demo"; cp "$d"/* "$W/demo"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
if [ -z "$NODEMO" ]; then
( cd "$W/repo" && timeout 300 bash "$W/demo/demo.sh" > "$W/clean.log" 2>&1 ); c=$?
fi
git -C "$W/repo" apply "$d/patch.diff" || { echo "$(basename $d): PATCH DOES NOT APPLY"; exit 1; }
if [ -z "$NOTEST" ]; then
bash "$W/vp/test.sh" "$W/out.json" > "$W/test.log" 2>&1
python3 - "$W/out.json" <<'P' || tail -5 "$W/test.log"
import json, sys
r = json.load(open(sys.argv[1])); s = json.load(open("/opt/vp/BASELINE.json"))["stable"]
m = [x for x in s if x not in r["passed"]]
print("tests:", "ok" if not m else "FAIL %s" % m); sys.exit(bool(m))
P
fi
if [ -z "$NODEMO" ]; then
( cd "$W/repo" && time timeout 300 bash "$W/demo/demo.sh" > "$W/bad.log" 2>&1 ) 2> "$W/time"; b=$?
echo "demo: clean=$c ($(tail -1 $W/clean.log)) patched=$b ($(tail -1 $W/bad.log)) $(grep real $W/time)"
fi
checks=("$@"); [ ${#checks[@]} = 0 ] && checks=($(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"))
for k in "${checks[@]}"; do
  OQPI_REPO="$W/repo" timeout 900 python3 /verif/run.py $k --seconds $secs > "$W/check.log" 2>&1; r=$?
  echo "$(basename $d): $k exit $r: $(grep -m1 '^violation' $W/check.log | cut -c1-150) $(grep -m1 -o '^C[0-9]*: [0-9]* runs' $W/check.log)"
done
