#!/bin/bash
# tools/trybug.sh SEEDED_DIR [nocheck|PROPERTY...]: validates a planted bug in a private copy of /repo
# bound over /repo in a mount namespace; prints one line per step.
D=$(realpath "$1"); ID=$(basename "$D"); shift
if [ "$TRYBUG_NS" != 1 ]; then exec env TRYBUG_NS=1 unshare -Urm bash "$0" "$D" "$@"; fi
T=/tmp/bug.$ID; rm -rf "$T"; mkdir -p "$T/verif"; cp -a /repo "$T/repo"
mount --bind "$T/repo" /repo || exit 2
cd /repo
s() { if [ "$1" = 0 ]; then echo ok; else echo "exit $1"; fi; }
mkdir -p "$T/demo"; cp -a "$D"/. "$T/demo"; rm -f "$T/demo/patch.diff" "$T/demo/meta.json"
timeout 300 bash "$T/demo/demo.sh" > "$T/demo0.log" 2>&1; echo "$ID demo unchanged: $(s $?)"
git apply "$D/patch.diff" || { echo "$ID patch does not apply"; exit 1; }
bash /opt/vp/build.sh > "$T/build.log" 2>&1; echo "$ID build: $(s $?)"
bash /opt/vp/test.sh "$T/t.json" > "$T/test.log" 2>&1; echo "$ID tests: $(tail -1 "$T/test.log")"
timeout 300 bash "$T/demo/demo.sh" > "$T/demo1.log" 2>&1; r=$?; echo "$ID demo patched: exit $r: $(tail -1 "$T/demo1.log")"
P="$*"; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
if [ "$P" != nocheck ]; then
  for p in $P; do VP_BUILD="$T/vb" VP_OUT="$T/ev" /verif/check $p > "$T/check.$p.log" 2>&1; echo "$ID check $p: exit $? $(grep -m1 VIOLATION "$T/check.$p.log") | $(tail -2 "$T/check.$p.log" | head -1 | cut -c1-200)"; done
fi
cd /; [ -z "$KEEP" ] && rm -rf "$T"
exit 0
