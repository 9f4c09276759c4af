#!/bin/bash
# bash check.sh -prop C01 -tier quick   (or --replay FILE)
V="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off
B="$(mktemp -d /tmp/zzbin.XXXXXX)"
trap 'rm -r -- "$B"' EXIT
if ! (cd "$V/engine" && go build -o "$B/eng" . ) >"$B/build.log" 2>&1; then
  echo "NOT DECIDED: the engine does not build"; cat "$B/build.log"; exit 3
fi
unset GOFLAGS
export GOFLAGS=
"$B/eng" -verif "$V" "$@"
rc=$?
exit $rc
