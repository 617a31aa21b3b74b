#!/bin/bash
# seedcheck.sh ID...: in a scratch copy, check that a planted bug applies, passes the stable tests, and that its demo tells it apart
cd "$(dirname "$0")" || exit 1
for id in "$@"; do
d="$PWD/../seeded/$id"; t=$(mktemp -d /tmp/seed.XXXXXX)
(
cp -a /repo "$t/repo"; mkdir "$t/demo"; cp "$d"/* "$t/demo/"; rm -f "$t/demo/patch.diff" "$t/demo/meta.json"
cd "$t/repo" || exit 1
export MPLBACKEND=Agg JAX_PLATFORMS=cpu HOME=/root PYTHONDONTWRITEBYTECODE=1
bash "$t/demo/demo.sh" > "$t/clean.log" 2>&1; clean=$?
git apply "$d/patch.diff" || echo "$id PATCH DOES NOT APPLY"
bash "$t/demo/demo.sh" > "$t/bad.log" 2>&1; bad=$?
sed -e "s#/repo#$t/repo#g" /opt/vp/test.sh > "$t/test.sh"
[ "$NOTESTS" ] || bash "$t/test.sh" "$t/out.json" > "$t/test.log" 2>&1
tests=$([ "$NOTESTS" ] && echo skipped || /usr/bin/python3 - "$t/out.json" <<'PY'
import json, sys
def passing(f):
    d = json.load(open(f))
    def walk(x):
        if isinstance(x, dict):
            for k in ("stable", "passed", "pass", "stable_pass"):
                if isinstance(x.get(k), list): return set(map(str, x[k]))
        return None
    return walk(d), d
b, bd = passing("/opt/vp/BASELINE.json"); o, od = passing(sys.argv[1])
print("missing=%s" % (sorted(b - o)[:5] if b and o is not None else (list(bd)[:6], list(od)[:6])))
PY
)
echo "$id clean=$clean bad=$bad tests: $tests"; [ $clean = 0 ] || tail -5 "$t/clean.log"; tail -2 "$t/bad.log"
)
/bin/rm -rf "$t"
done
