#!/bin/bash
# run.sh PROPERTY [quick|thorough]   decide one property on /repo's working tree
# run.sh replay FILE                 re-execute a recorded violation
# run.sh build DIR                   only build, into DIR/vm
here=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
. /opt/vp/env.sh
w=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap '/bin/rm -rf "$w"' EXIT
build() {
	(cd "$here/tools/instr" && GOFLAGS= go build -o "$w/instr" .) || return 2
	mkdir -p "$w/src"
	sed 's/^go 1\.1[0-9]$/go 1.21/' "$repo/go.mod" > "$w/go.mod" && cp "$repo/go.sum" "$w/go.sum" || return 2
	(cd "$repo" && "$w/instr" -repo "$repo" -tags v1 -out "$w" -modfile "$w/go.mod" -harness "$here/harness" \
		./redis ./event ./server/v1 ./server/v2 ./config ./persistence ./cmd/gen_redis_cmd ./cmd/server &&
		go build -tags v1 -overlay "$w/overlay.json" -modfile "$w/go.mod" -o "$w/vm" ./zzverif/vmain) || return 2
}
build || { echo "ERROR: the harness does not build on this tree"; exit 2; }
case "$1" in
build) cp "$w/vm" "$2/vm" ;;
replay) "$w/vm" replay "$2" ;;
try|list) "$w/vm" "$@" ;;
*) "$w/vm" check "$1" "${2:-${VERIF_TIER:-quick}}" "$here" ;;
esac
exit $?
