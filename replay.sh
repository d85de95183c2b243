#!/bin/bash
# replay.sh ID FILE: run one recorded case again.
cd "$(dirname "$0")" || exit 4
export VERIF_DIR="$PWD"
. ./env.sh
build_monitors >&2 || exit 4
if [ "$1" = C22 ]; then build_tools >&2 || exit 4; fi
exec "$CARGO_TARGET_DIR/release/vmon" replay "$1" "$2"
