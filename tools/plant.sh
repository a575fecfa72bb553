#!/bin/bash
# tools/plant.sh ID [notest]   validates /verif/seeded/ID in a scratch copy of /repo: patch applies, build, stable tests, demo, check
set -u
id=$1; V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$id
T=$(mktemp -d /tmp/plant.XXXXXX)
cp -a /repo "$T/repo"
mkdir "$T/demo"; cp -a "$S"/. "$T/demo/"; rm -f "$T/demo/patch.diff" "$T/demo/meta.json"
cd "$T/repo" || exit 2
bash "$T/demo/demo.sh" >"$T/d0" 2>&1; echo "demo unpatched: $?"
git apply "$S/patch.diff" || { echo 'PATCH FAILS'; exit 2; }
bash "$T/demo/demo.sh" >"$T/d1" 2>&1; echo "demo patched: $?"; tail -2 "$T/d1" | cut -c1-200
if [ "${2:-}" != notest ]; then
  sed "s#/repo\b#$T/repo#g" /opt/vp/build.sh > "$T/build.sh"
  bash "$T/build.sh" 2>&1 | tail -1
  export PYTHONPATH="$T/repo"  # the tests must import the patched copy
  sed "s#/opt/vp/cache/reports#$T/rpt#g; s#/repo\b#$T/repo#g" /opt/vp/test.sh > "$T/test.sh"
  bash "$T/test.sh" "$T/out.json" >/dev/null 2>&1
  python3 - "$T/out.json" <<'P'
import json, sys
b = set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o = json.load(open(sys.argv[1]))
bad = sorted(b - set(o['passed'])); print('tests: %d stable failing' % len(bad), bad[:4])
P
fi
p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd "$V" && timeout 900 python3 run.py "$p" --tier quick --repo "$T/repo" > "$T/chk" 2>&1; echo "check $p: rc=$?"
grep -c '^VIOLATION' "$T/chk"; grep -v '^KNOWN' "$T/chk" | head -3 | cut -c1-240
rm -rf "$T"
