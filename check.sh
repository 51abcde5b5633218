#!/bin/bash
# check.sh <property> [quick|thorough]
# Builds the symbolic engine, encodes /repo's current tree and decides the
# property. Exit 0: held on everything explored; 1: VIOLATION printed.
set -u
cd "$(dirname "$0")" || exit 2
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
root=$(pwd)
tier=${2:-${VERIF_TIER:-quick}}
out=$(mktemp -d) || exit 2
trap 'rm -rf "$out"' EXIT
(cd engine && go build -o "$out/symgo" .) || { echo "engine build failed" >&2; exit 2; }
"$out/symgo" -prop "$1" -tier "$tier" -root "$root"
