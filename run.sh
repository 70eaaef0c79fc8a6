#!/bin/bash
# run.sh ID [quick|thorough]   run the check of one property
# run.sh --replay FILE         rerun one recorded violation
. /opt/vp/env.sh
cd "$(dirname "$0")/harness" || exit 2
V="$(cd .. && pwd)"
export VVERIF="$V"
mkdir -p "$V/build"
B=$(mktemp -d "$V/build/vrun.XXXXXX") || exit 2
trap 'rm -rf "$B"' EXIT
go build -o "$B/vrun" ./cmd/vrun || exit 2
if [ "$1" = "--setup" ]; then exit 0; fi
if [ "$1" = "--replay" ]; then "$B/vrun" -replay "$2" -v; exit $?; fi
ID="$1"; shift
T="$1"; [ $# -gt 0 ] && shift
"$B/vrun" -tier "${T:-quick}" "$@" "$ID"
