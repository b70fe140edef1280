#!/bin/bash
# detect.sh ID...: run the quick check of the property a planted bug breaks against a copy of /repo with the bug.
# SEEDED names another directory of planted bugs, SEED another seed.
v=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
	d=${SEEDED:-$v/seeded}/$id
	p=${PROP:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
	w=$(mktemp -d /tmp/det.XXXXXX)
	git clone -q /repo "$w/r"
	git -C "$w/r" apply "$d/patch.diff" || echo "$id does not apply"
	s=$(date +%s)
	VERIF_REPO=$w/r VERIF_OUT=$w/ev VERIF_SEED=${SEED:-1} bash "$v/run.sh" "$p" quick >"$w/log" 2>&1
	rc=$?
	echo "$id $p rc=$rc $(($(date +%s) - s))s: $(grep -a -m1 -A1 '^VIOLATION' "$w/log" | tail -1)"
	[ $rc = 1 ] || tail -5 "$w/log"
	rm -rf -- "$w"
done
