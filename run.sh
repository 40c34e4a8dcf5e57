#!/bin/bash
# Builds the simulator around /repo's current sources and decides one property.
#   run.sh ID [quick|thorough]     run the check
#   run.sh replay FILE             replay a recorded violation
#   run.sh build DIR [race]        only build DIR/simcheck
# REPO overrides the tree that is checked (used for trying planted changes in scratch copies).
set -u
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=${REPO:-/repo}
what=${1:?usage: run.sh ID [quick|thorough] | replay FILE}
export GO111MODULE=off GOFLAGS= CGO_ENABLED=1 GOTOOLCHAIN=local
unset GOROOT GOEXPERIMENT GODEBUG GOOS GOARCH
export VERIF_SEED=${VERIF_SEED:-1}

keep=""
if [ "$what" = build ]; then
	tmp=$2; mkdir -p "$tmp"; keep=1
	race=${3:-}
else
	tmp=$(mktemp -d "${TMPDIR:-/tmp}/cfsim.XXXXXX") || exit 3
	trap 'rm -rf "$tmp"' EXIT
	trap 'exit 3' INT TERM
	id=$what
	[ "$what" = replay ] && id=$(sed -n 's/^ *"property": "\(P[0-9]*\)".*/\1/p' "$2" | head -1)
	case $id in P02|P07|P08) race=race ;; *) race= ;; esac
fi
export GOPATH=$tmp/gp GOCACHE=$here/.build/gocache GOTMPDIR=$tmp
mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || { GOCACHE=$tmp/gocache; mkdir -p "$GOCACHE"; }
mkdir -p "$GOPATH/src/cfsim" || exit 3
ln -sfn "$here/sim/sim" "$GOPATH/src/cfsim/sim"
ln -sfn "$here/sim/check" "$GOPATH/src/cfsim/check"

build() {
	go build -o "$tmp/rewrite" "$here/sim/rewrite/main.go" || return 1
	"$tmp/rewrite" "$repo" "$GOPATH" || return 1
	if [ -n "$race" ]; then
		local root; root=$(go env GOROOT)
		"$tmp/rewrite" pool "$root/src/sync/pool.go" "$tmp/pool.go" || return 1
		printf '{"Replace": {"%s": "%s"}}\n' "$root/src/sync/pool.go" "$tmp/pool.go" >"$tmp/overlay.json"
		# uninstrumented packages would otherwise allocate without telling the race detector
		GOEXPERIMENT=nosizespecializedmalloc go build -race -overlay "$tmp/overlay.json" '-gcflags=cfsim/...=-race=false -l' -o "$tmp/simcheck" cfsim/check
	else
		go build -o "$tmp/simcheck" cfsim/check
	fi
}
if ! build >"$tmp/build.log" 2>&1; then
	cat "$tmp/build.log" >&2
	echo "run.sh: the instrumented copy of $repo does not build" >&2
	exit 3
fi
export GORACE="suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 log_path=$tmp/race"
case $what in
build) ;;
replay) "$tmp/simcheck" -verif "$here" replay "$2" ;;
*) "$tmp/simcheck" -verif "$here" -tier "${2:-${VERIF_TIER:-quick}}" "$what" ;;
esac
