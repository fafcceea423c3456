#!/bin/bash
# Compiles what the checks compile, so that a broken toolchain shows early and
# the build cache is warm where it is kept. The checks do not depend on it.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local HOME=${HOME:-/root}
cd "$here/sim"
go vet ./instr ./rnd ./rep ./simrt ./toolsim
go build -o /dev/null ./cmd/driver
