#!/bin/bash
# check.sh PROPERTY: builds the verifier and decides one property of /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off
mkdir -p "$here/.build"
( cd "$here/gover" && GOFLAGS=-mod=vendor go build -o "$here/.build/gover.$$" . ) || { echo "verifier does not build"; exit 3; }
"$here/.build/gover.$$" check -root "$here" -repo /repo -prop "$1" "${@:2}"
rc=$?
rm -f "$here/.build/gover.$$"
exit $rc
