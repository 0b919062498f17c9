#!/bin/bash
# Builds the symbolic engine (bin/symgo) when its sources are newer than the binary.
cd "$(dirname "$0")" || exit 2
if [ -x bin/symgo ] && [ -z "$(find engine -newer bin/symgo -name '*.go' | head -1)" ]; then exit 0; fi
mkdir -p bin
cd engine || exit 2
export GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GOTOOLCHAIN=local
unset GOROOT
GO=/usr/local/bin/go
[ -x "$GO" ] || GO=go
exec "$GO" build -o ../bin/symgo .
