#!/bin/bash
# Builds the symbolic executor from the committed sources; offline.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
here=$PWD
mkdir -p bin evidence
cd engine && go build -o "$here/bin/gosym" .
