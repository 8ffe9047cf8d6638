#!/bin/bash
# Builds the driver once, and the harness against the current tree, to warm the build cache.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here/sim" && GOFLAGS= go vet ./rt ./instr ./plan ./cmd/... || exit 1
mkdir -p "$here/evidence"
