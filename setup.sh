#!/bin/bash
# Builds the verifier once, to fail early if the sandbox cannot.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off
mkdir -p "$here/.build"
cd "$here/gover" && GOFLAGS=-mod=vendor go build -o "$here/.build/gover" . && echo "verifier built"
