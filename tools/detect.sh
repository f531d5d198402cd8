#!/bin/bash
# detect.sh [PROP:]ID...  runs the property's quick check against a scratch copy of /repo with the planted change (never /repo itself)
v=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
	p=; case $id in *:*) p=${id%%:*}; id=${id#*:};; esac
	[ -n "$p" ] || p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$v/seeded/$id/meta.json")
	w=$(mktemp -d /tmp/detect.XXXXXXXX)
	cp -a /repo "$w/repo"; mkdir "$w/verif"; cp -a "$v/harness" "$v/tools" "$v/run.sh" "$v/known_findings" "$w/verif/"
	if git -C "$w/repo" apply "$v/seeded/$id/patch.diff"; then
		s=$(date +%s)
		VERIF_REPO=$w/repo timeout 900 "$w/verif/run.sh" "$p" ${TIER:-quick} > "$w/out" 2>&1; rc=$?
		echo "$id by $p: rc=$rc $(($(date +%s)-s))s $(grep -A1 -m1 "^VIOLATION property=$p" "$w/out" | tail -1 | cut -c1-220)"
		[ $rc = 2 ] && tail -5 "$w/out" | cut -c1-400
	fi
	/bin/rm -rf "$w"
done
