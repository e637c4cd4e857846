#!/bin/bash
# check.sh ID          builds the harness against the current tree of /repo and runs one check
# check.sh replay FILE runs the case of a violation again
# check.sh setup       builds once, which fills the build cache
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
export VH_DIR="$here"
id="${1:-}"
tmp="$(mktemp -d "${TMPDIR:-/tmp}/vhb.XXXXXX")" || exit 2
trap 'find "$tmp" -delete' EXIT
race=""
case "$id" in
C18) race="-race" ;;
replay) case "$(basename "${2:-}")" in C18-*) race="-race" ;; esac ;;
esac
build() { (cd "$here/harness" && go build -trimpath $1 -o "$tmp/vh" .) >"$tmp/build.log" 2>&1 || { cat "$tmp/build.log" >&2; echo "INCONCLUSIVE: the harness does not build" >&2; exit 2; }; }
if [ "$id" = setup ]; then
	build "" && build "-race"
	exit 0
fi
build "$race"
if [ "$id" = replay ]; then
	"$tmp/vh" replay "$2"
else
	"$tmp/vh" check "$id"
fi
