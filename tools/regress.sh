#!/bin/bash
# regress.sh [ID...]: applies every planted bug to a scratch copy of /repo and runs the check of its property on it
V=$(cd "$(dirname "$0")/.." && pwd)
cd "$V"
n=0; missed=
for d in ${@:-$(ls seeded)}; do
	s=$V/seeded/$d
	p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$s/meta.json")
	t=$(mktemp -d /tmp/regress.XXXXXX)
	cp -a /repo "$t/repo"
	if ! git -C "$t/repo" apply "$s/patch.diff"; then echo "$d: the patch does not apply"; rm -rf "$t"; continue; fi
	o=$(HSA_REPO="$t/repo" HSA_EVIDENCE="$t/ev" timeout 900 ./check "$p" 2>/dev/null); r=$?
	w=$(printf '%s\n' "$o" | grep -c "^VIOLATION property=$p ")
	if [ $r = 1 ] && [ "$w" -gt 0 ]; then echo "$d: caught ($w)"; else echo "$d: MISSED (exit $r)"; missed="$missed $d"; fi
	rm -rf "$t"
done
[ -z "$missed" ] || { echo "missed:$missed"; exit 1; }
