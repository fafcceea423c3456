#!/bin/bash
# check.sh PROPERTY [--replay FILE]: decides one property (see DESIGN.md).
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local HOME=${HOME:-/root}
export VSIM_VERIF=$here
bin=$(mktemp -d /tmp/vsim-driver-XXXXXX) || exit 2
trap 'rm -rf "$bin"' EXIT
if ! (cd "$here/sim" && go build -o "$bin/driver" ./cmd/driver); then
    echo "ERROR: the driver does not build"
    exit 2
fi
"$bin/driver" "$@"
