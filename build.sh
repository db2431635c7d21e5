#!/bin/bash
# Builds the analyzer into bin/ (ignored by git) when it is missing or older
# than its sources.
if [ -d /opt/veriftools/go1.27.3/bin ]; then export PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS="-mod=mod -buildvcs=false"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
vdir="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$vdir/bin" "$vdir/evidence"
if [ ! -x "$vdir/bin/texted-verif" ] || [ -n "$(find "$vdir/analyzer" -newer "$vdir/bin/texted-verif" -name '*.go' -print -quit)" ]; then
	(cd "$vdir/analyzer" && go build -o "$vdir/bin/texted-verif.$$" . && mv "$vdir/bin/texted-verif.$$" "$vdir/bin/texted-verif") || return 1 2>/dev/null || exit 1
fi
