#!/bin/bash
# Build the monitors once (checks rebuild what changed in /repo).
cd "$(dirname "$0")" || exit 1
export VERIF_DIR="$PWD"
. ./env.sh
mkdir -p target evidence replays
build_monitors
