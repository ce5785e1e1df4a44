#!/bin/bash
# Builds the analyzer from the committed sources, offline.
cd "$(dirname "$0")" || exit 1
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
unset GOROOT
mkdir -p bin && cd analyzer && ${GO:-/usr/local/bin/go} build -o ../bin/vchk .
