#!/bin/bash
# Builds the harness once, so that the checks have less to compile.
cd "$(dirname "$0")" || exit 2
export QMV_DIR="$PWD"
. ./build_env.sh
mkdir -p evidence replays work
build_plain && build_asan && build_tsan
