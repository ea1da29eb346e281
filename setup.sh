#!/bin/bash
# Warms the build cache: harness, gosec and gosec with the race detector.
set -u
ROOT="$(cd "$(dirname "$0")" && pwd)"
. "$ROOT/env.sh"
T="$(mktemp -d /tmp/vhsetup.XXXXXX)" || exit 2
trap 'rm -rf "$T"' EXIT
cd "$ROOT/harness" && go build -o "$T/vh" ./cmd/vh && cd /repo && go build -o "$T/gosec" ./cmd/gosec && go build -race -o "$T/gosec-race" ./cmd/gosec
