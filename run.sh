#!/bin/bash
# usage: run.sh <property> [quick|thorough]   or   run.sh replay <file>
# Rebuilds the harness against /repo's working tree and runs one property.
# Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: no verdict.
cd "$(dirname "$0")" || exit 2
export QMV_DIR="$PWD"
. ./build_env.sh
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
mkdir -p evidence replays work

if [ "$prop" = replay ]; then
    part=$(sed -n 's/.*"part": *"\([a-z]*\)".*/\1/p' "$2")
    case "$part" in asan|tsan) use_sanitizer "$part" ;; esac
    case "$part" in
        asan|tsan) build_$part && QMV_PART="$part" exec "$QMV_BIN" replay "$2" ;;
        miri) build_plain && run_miri quick "$(sed -n 's/.*"seed": *\([0-9]*\).*/\1/p' "$2")"; exit $? ;;
        *) build_plain && exec "$QMV_BIN" replay "$2" ;;
    esac
    exit 2
fi
export VERIF_TIER="$tier"

# the sanitizer part of a check; 87 says that the sanitizer cannot run here
part() {
    rm -f "$QMV_DIR/work/$prop-$1.json"
    build_$1 || return 2
    ( use_sanitizer "$1"; QMV_PART="$1" QMV_SCALE="$2" "$QMV_BIN" "$prop" "$tier" )
    local code=$?
    [ $code -eq 87 ] && code=0
    return $code
}

case "$prop" in
    A02) if [ "$tier" = quick ]; then part asan 0.3; else part asan 0.2; fi || exit $? ;;
    A04) if [ "$tier" = quick ]; then part tsan 0.3; else part tsan 0.2; fi || exit $? ;;
esac
build_plain || exit 2
if [ "$prop" = A02 ]; then run_miri "$tier" "${VERIF_SEED:-1}" || exit $?; fi
"$QMV_BIN" "$prop" "$tier"
exit $?
