#!/bin/bash
# check.sh <property> quick|thorough   run a property's check
# check.sh setup                      build everything once (warms the build cache)
# check.sh replay <file>               run a replay file against the current tree
set -u
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0 GOWORK=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset GOROOT GOENV GOOS GOARCH
here=$(cd "$(dirname "$0")" && pwd)
export SIM_VERIF=${SIM_VERIF:-$here}
tmp=$(mktemp -d /tmp/godis-vdrive-XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/sim" && go build -o "$tmp/vdrive" ./cmd/vdrive) || { echo "cannot build the driver"; exit 2; }
if [ "${1:-}" = setup ]; then
	"$tmp/vdrive" setup all
elif [ "${1:-}" = replay ]; then
	"$tmp/vdrive" replay "$2"
else
	"$tmp/vdrive" check "$1" "${2:-${VERIF_TIER:-quick}}"
fi
exit $?
