#!/bin/bash
# check.sh ID [arguments of vsim]: decides one property on the current tree of /repo.
cd "$(dirname "$0")" || exit 3
root=$PWD
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod GO111MODULE=on
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GODEBUG GOMAXPROCS GOGC GORACE GOMEMLIMIT GOEXPERIMENT GOOS GOARCH
id=$1
shift
case $id in
setup | C0[1-9] | C22) ;;
*) echo "usage: check.sh C01..C09 | C22 | setup" >&2; exit 3 ;;
esac
mkdir -p "$GOCACHE" 2>/dev/null && [ -w "$GOCACHE" ] || export GOCACHE=$root/.build/gocache
bin=$root/.build/$id
mkdir -p "$bin" || exit 3
(cd sim && go build -o "$bin/vsim" ./cmd/vsim) || exit 3
exec "$bin/vsim" -root "$root" "$@" "$id"
