#!/bin/bash
# usage: check.sh <PROPERTY> <quick|thorough>     run one property's monitor
#        check.sh replay <replay.json>            re-run one recorded case
# Builds the monitor (and through it the package) from /repo's working tree.
# exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export VMON_DIR=$here
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
unset GOARCH GOOS GODEBUG GOMAXPROCS GOGC GOMEMLIMIT GOEXPERIMENT
tmp=$(mktemp -d "${TMPDIR:-/tmp}/vmon.XXXXXXXX") || exit 2
trap 'rm -rf "$tmp"' EXIT
mod=$tmp/mod
mkdir "$mod" && cp "$here"/mon/*.go "$here"/mon/go.mod "$here"/mon/go.sum "$mod"/ || exit 2
cd "$mod" || exit 2

case "${1:-}" in
replay)
	id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)
	mode=replay; arg=$2 ;;
*)
	id=${1:?}; mode=parent; arg=${2:-quick} ;;
esac

flags=()
case $id in
C17|C18|C19|C27) flags=(-race) ;;
C23)	# lets the monitor reach the internal checksum packages (see shim/)
	printf '{"Replace":{"/repo/verifshim/shim.go":"%s/shim/shim.go"}}' "$here" >"$tmp/overlay.json"
	flags=(-overlay "$tmp/overlay.json" -tags shim)
	if ! go build "${flags[@]}" -o "$tmp/vmon" . >"$tmp/log" 2>&1; then
		flags=()	# reorganised: observe them through streams and events only
	fi ;;
esac
if ! go build "${flags[@]}" -o "$tmp/vmon" . >"$tmp/log" 2>&1; then
	cat "$tmp/log"; echo "INCONCLUSIVE property=$id: the monitor does not build against /repo"; exit 2
fi
case $id in
C23|C26)
	if ! GOARCH=386 CGO_ENABLED=0 go build "${flags[@]}" -o "$tmp/vmon386" . >"$tmp/log" 2>&1; then
		cat "$tmp/log"; echo "INCONCLUSIVE property=$id: the 32-bit build failed"; exit 2
	fi
	export VMON_386=$tmp/vmon386 ;;
esac
if [ "$id" = C25 ]; then
	if ! (cd /repo && go build -mod=readonly -o "$tmp/gzipcmd" ./cmd/gzip) >"$tmp/log" 2>&1; then
		cat "$tmp/log"; echo "INCONCLUSIVE property=$id: the gzip command failed to build"; exit 2
	fi
	export VMON_GZIP=$tmp/gzipcmd
fi
export TMPDIR=$tmp
if [ "$mode" = parent ]; then
	"$tmp/vmon" parent "$id" "$arg"
else
	"$tmp/vmon" replay "$arg"
fi
exit $?
