#!/bin/bash
# tools/seed.sh ID...: confirms planted bugs in a scratch copy of /repo and runs the property's quick check on each.
. /opt/vp/env.sh
V=/verif
for id in "$@"; do
  S=$V/seeded/$id; W=$(mktemp -d /tmp/seed.XXXX); P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
  cp -a /repo "$W/repo"
  git -C "$W/repo" checkout -q -- .
  r="$id($P):"
  (cd "$W/repo" && bash "$S/demo.sh" >"$W/d0" 2>&1) && r="$r demo-clean=ok" || r="$r demo-clean=FAIL"
  if git -C "$W/repo" apply "$S/patch.diff"; then
    (cd "$W/repo" && go build ./... 2>"$W/b") && r="$r build=ok" || r="$r build=FAIL"
    (cd "$W/repo" && timeout 300 bash "$S/demo.sh" >"$W/d1" 2>&1) && r="$r demo-patched=PASSES" || r="$r demo-patched=ok"
    sed "s|cd /repo|cd $W/repo|" /opt/vp/test.sh > "$W/test.sh"
    bash "$W/test.sh" "$W/t.json" > "$W/t.log" 2>&1
    r="$r $(python3 - "$W/t.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
st=b.get('stable') or b.get('passed') or next(v for v in b.values() if isinstance(v,list) and len(v)==152)
m=[t for t in st if t not in o['passed']]
print('tests=ok' if not m else 'tests=FAIL:'+','.join(m[:3]))
P
)"
    if [ -z "$NOCHECK" ]; then
      s=$(date +%s); SYMGO_REPO="$W/repo" "$V/check.sh" "$P" quick > "$W/c.log" 2>&1; rc=$?
      n=$(grep -c "^VIOLATION property=$P" "$W/c.log"); r="$r check rc=$rc violations=$n $(( $(date +%s)-s ))s"; cp "$W/c.log" /tmp/seed_$id.log
    fi
  else r="$r APPLY-FAILED"; fi
  [ "${KEEPLOG:-}" ] && cp "$W/d0" /tmp/seed_$id.d0 && cp "$W/d1" /tmp/seed_$id.d1
  echo "$r"
  rm -rf "$W"
done
