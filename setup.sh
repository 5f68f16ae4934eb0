#!/bin/bash
# Checks that the toolchain is there and warms Go's build cache.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
scratch=$(mktemp -d)
trap 'rm -rf "$scratch"' EXIT
cd "$here/tool"
go build -o "$scratch/dsimtool" .
