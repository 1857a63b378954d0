#!/bin/bash
# warms the build cache: the harness with and without the race detector
set -u
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/bin:/usr/bin:/bin:$PATH HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
tmp=$(mktemp -d /tmp/vcsetup.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
cd "$here/harness" || exit 1
cp go.mod go.sum "$tmp/"
go build -modfile="$tmp/go.mod" -o "$tmp/vc" ./cmd/vc && go build -race -modfile="$tmp/go.mod" -o "$tmp/vcr" ./cmd/vc && "$tmp/vc" list
