#!/bin/bash
# tools/seedtry.sh ID [CHECK...]: build and test a planted change in a scratch copy of /repo, run its
# demonstration and (by default) the check of its property there.
id=$1; shift
s=/verif/seeded/$id
w=$(mktemp -d /tmp/seedtry.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo" || exit 2
mkdir "$w/vp"
for f in common.sh build.sh test.sh runtest.sh collect.py results.py BUILD.json BASELINE.json; do
  sed "s#/repo#$w/repo#g; s#/opt/vp#$w/vp#g" /opt/vp/$f > "$w/vp/$f"; chmod +x "$w/vp/$f"
done
rm -rf "$w/repo/_build"
git -C "$w/repo" apply "$s/patch.diff" || { echo "$id PATCH-FAILS"; exit 1; }
if [ -z "$NOTEST" ]; then
  ( flock 9; bash "$w/vp/build.sh" > "$w/build.log" 2>&1 && bash "$w/vp/test.sh" "$w/o.json" > "$w/test.log" 2>&1 ) 9>/tmp/seedtry.lock
  python3 - "$id" "$w/o.json" <<'PY'
import json,sys
o=json.load(open(sys.argv[2])) if __import__('os').path.exists(sys.argv[2]) else {'passed':[]}
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[t for t in b if t not in o['passed']]
print(sys.argv[1],'tests', 'OK' if not m else 'MISSING %s'%m, flush=True)
PY
fi
( cd "$w/repo"; bash "$s/demo.sh" >/dev/null 2>&1; echo "$id demo(patched)=$?" )
p=${*:-$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")}
for c in $p; do
  t=$(date +%s)
  ( cd /verif; VERIF_REPO=$w/repo VERIF_SEED=1 VERIF_TIER=quick VERIF_OUT=$w/out timeout 900 python3 check.py $c > "$w/check.log" 2>&1; echo "$id check $c exit=$? $(( $(date +%s) - t )) s: $(grep -m1 VIOLATION "$w/check.log") $(grep -m1 -iE 'what|reason|violat' "$w/check.log" | head -c 200)" )
done
