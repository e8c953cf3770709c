#!/bin/bash
# Runs the check of a planted bug against a scratch copy: try.sh ID [PROPERTY]
id="$1"; d="$(dirname "$(dirname "$(readlink -f "$0")")")"
T="$(mktemp -d)"; cp -a /repo "$T/repo"; git -C "$T/repo" apply "$d/seeded/$id/patch.diff" || exit 9
p="${2:-$(python3 -c "import json;print(json.load(open('$d/seeded/$id/meta.json'))['property'])")}"
cp -a "$d" "$T/verif"
(cd "$T/verif" && PYVC_REPO="$T/repo" VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt run_check.py "$p" > "$T/out" 2>&1; echo "exit $?" >> "$T/out")
echo "== $id $p: $(grep -c VIOLATION "$T/out") violations, $(tail -1 "$T/out")"; grep -h "^failed\|^VIOL\|Traceback" "$T/out" | cut -c1-220 | head -${3:-6}
rm -rf "${T:?}"
