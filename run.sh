#!/bin/bash
# Decides one property: builds the analyzer when needed, analyses /repo's current source.
# usage: run.sh PROPERTY [tier]
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
unset GOROOT
bin=bin/vchk
if [ ! -x $bin ] || [ -n "$(find analyzer -newer $bin \( -name '*.go' -o -name 'go.*' \) -print -quit)" ]; then
	mkdir -p bin
	tmp=$(mktemp bin/vchk.XXXXXX) || exit 2
	(cd analyzer && ${GO:-/usr/local/bin/go} build -o "../$tmp" .) || { echo "cannot build the analyzer"; exit 2; }
	mv -f "$tmp" $bin
fi
exec $bin -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -verif "$PWD" -repo /repo
