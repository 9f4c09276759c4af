#!/bin/bash
# the checks build the engine themselves; this shows that it builds offline
V="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
B="$(mktemp -d /tmp/zzsetup.XXXXXX)"
cd "$V/engine" && go build -o "$B/eng" .
rc=$?
rm -r -- "$B"
exit $rc
