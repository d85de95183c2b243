#!/bin/bash
# check.sh ID: build the monitors against /repo's working tree and run one check.
cd "$(dirname "$0")" || exit 4
export VERIF_DIR="$PWD"
. ./env.sh
build_monitors >&2 || { echo "build failed" >&2; exit 4; }
if [ "$1" = C22 ]; then build_tools >&2 || { echo "build of the tools failed" >&2; exit 4; }; fi
exec "$CARGO_TARGET_DIR/release/vmon" check "$1"
