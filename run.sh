#!/bin/bash
# run.sh build | run.sh <property> [quick|thorough]
# Builds the analyser from the committed sources (offline, vendored) and runs
# one check on /repo's current working tree.
here=$(cd "$(dirname "$0")" && pwd)
if [ -d /opt/veriftools/go1.27.3/bin ]; then PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOWORK=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$here/bin" "$here/evidence"
(cd "$here/checker" && GOFLAGS=-mod=vendor go build -o "$here/bin/checker" .) || exit 2
[ "$1" = build ] && exit 0
unset GOFLAGS
export VERIF_DIR="$here" VERIF_REPO=${VERIF_REPO:-/repo}
exec "$here/bin/checker" "$1" "${2:-${VERIF_TIER:-quick}}"
