#!/bin/bash
# Builds the symbolic engine from its vendored sources (offline).
set -e
D="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$D/bin"
cd "$D/engine"
GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o "$D/bin/vsym.tmp$$" .
mv "$D/bin/vsym.tmp$$" "$D/bin/vsym"
