#!/bin/bash
# Warms the build cache; every check builds what it needs by itself.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here"/mon/*.go "$here"/mon/go.mod "$here"/mon/go.sum "$tmp"/ && cd "$tmp" || exit 2
go version && go build -o "$tmp/vmon" . && go build -race -o "$tmp/vmonr" . && "$tmp/vmon" list | sort | tr '\n' ' '
