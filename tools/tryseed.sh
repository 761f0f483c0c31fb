#!/bin/bash
# tryseed.sh ID...: confirm planted bugs in a scratch copy of /repo and run their property's check on it.
V=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
  D=$V/seeded/$id; W=$(mktemp -d); P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  git clone -q /repo "$W/repo"
  ( cd "$W/repo"; cp -r "$D" "$W/demo"; rm -f "$W"/demo/*.diff "$W/demo/meta.json"
    bash "$W/demo/demo.sh" >"$W/d0" 2>&1; a=$?
    git apply "$D/patch.diff" || { echo "$id: patch does not apply"; exit; }
    bash "$W/demo/demo.sh" >"$W/d1" 2>&1; b=$?
    find src gc-derive -name '*.rs' -print0 | xargs -0 rustfmt --edition 2024 --emit stdout >/dev/null 2>"$W/fmt" || cat "$W/fmt"
    echo "$id: demo unchanged=$a patched=$b"; [ $a = 0 ] || tail -5 "$W/d0"; tail -2 "$W/d1" | cut -c1-300
    [ -n "$NOCHECK" ] || for p in ${CHECKS:-$P}; do VERIF_REPO=$W/repo python3 "$V/check.py" $p >"$W/c" 2>&1; echo "$id: $p exit=$? $(grep -c ^VIOLATION "$W/c") violations"; grep -v ^VIOLATION "$W/c" | head -${LINES_:-3} | cut -c1-250; done )
  rm -rf -- "$W"
done
