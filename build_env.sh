# Sourced by run.sh and setup.sh
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET MIRIFLAGS
ulimit -c 0
TRIPLE=x86_64-unknown-linux-gnu

# Cargo decides by file times what to rebuild, and an edit can keep them.
# Forget the library and the harness so that they are always rebuilt.
forget() {
    for d in "$1"/.fingerprint/quantmath-* "$1"/.fingerprint/qmv-*; do
        [ -e "$d" ] && rm -rf "$d"
    done
    return 0
}

# build <log> <command...>
build() {
    local log="$QMV_DIR/work/$1.log"
    shift
    ( cd "$QMV_DIR/harness" && "$@" ) > "$log" 2>&1
    local code=$?
    # a build that was killed can leave state the compiler or linker trips over
    if [ $code -ne 0 ] && grep -qE 'linking with|internal compiler error|unexpectedly panicked|incremental compilation' "$log"; then
        for d in "$QMV_DIR"/harness/target*/debug/incremental "$QMV_DIR"/harness/target*/$TRIPLE/debug/incremental; do
            [ -e "$d" ] && rm -rf "$d"
        done
        for d in "$QMV_DIR"/harness/target "$QMV_DIR"/harness/target*/$TRIPLE; do forget "$d/debug"; done
        ( cd "$QMV_DIR/harness" && "$@" ) > "$log" 2>&1
        code=$?
    fi
    if [ $code -ne 0 ]; then
        grep -E '^error' -A12 "$log" | head -60
        echo "BUILD FAILED: no verdict"
        return 1
    fi
    return 0
}

build_plain() {
    local t="$QMV_DIR/harness/target"
    forget "$t/debug"
    QMV_BIN="$t/debug/qmv"
    build build cargo build --offline --locked --target-dir "$t"
}

build_asan() {
    local t="$QMV_DIR/harness/target-asan"
    forget "$t/$TRIPLE/debug"
    QMV_BIN="$t/$TRIPLE/debug/qmv"
    RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=address" build build-asan cargo build --offline --locked --bin qmv --target $TRIPLE --target-dir "$t"
}

# the standard library is built with the sanitizer too, or it reports races in it
build_tsan() {
    local t="$QMV_DIR/harness/target-tsan"
    forget "$t/$TRIPLE/debug"
    QMV_BIN="$t/$TRIPLE/debug/qmv"
    RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread" build build-tsan cargo build --offline --locked --bin qmv -Zbuild-std --target $TRIPLE --target-dir "$t"
}

use_sanitizer() {
    case "$1" in
        asan) export ASAN_OPTIONS=exitcode=86:detect_leaks=1 ;;
        tsan) export TSAN_OPTIONS=exitcode=86:halt_on_error=1 ;;
    esac
}

miri() {
    ( cd "$QMV_DIR/harness" && RUSTUP_TOOLCHAIN=nightly MIRIFLAGS="-Zmiri-permissive-provenance -Zmiri-disable-isolation" \
        timeout "$1" cargo miri run --offline --locked --target-dir "$QMV_DIR/harness/target-miri" --bin seqs -- "$2" "$3" "$4" )
}

# Sequences of calls in the interpreter, several at a time; run_miri <tier> <seed>.
# Undefined behaviour, a leak or a failed sequence is a violation; what Miri
# does not support, or a time limit, is not.
run_miri() {
    local number=3 calls=40 limit=240 jobs=8 w="$QMV_DIR/work" i bad=0
    [ "$1" = thorough ] && number=40 && calls=60 && limit=1800
    forget "$QMV_DIR/harness/target-miri/$TRIPLE/debug"
    forget "$QMV_DIR/harness/target-miri/miri/$TRIPLE/debug"
    miri 600 "$2" 0 1 > "$w/miri-build.log" 2>&1
    for i in $(seq 1 $jobs); do miri $limit $(($2 * 100 + i)) $number $calls > "$w/miri-$i.log" 2>&1 & done
    wait
    for i in $(seq 1 $jobs); do
        if grep -qE 'error: Undefined Behavior|error: memory leaked|SEQUENCE .* FAILED' "$w/miri-$i.log"; then
            bad=1
            grep -E 'error: Undefined Behavior|error: memory leaked|SEQUENCE .* FAILED' -A14 "$w/miri-$i.log" | grep -v clone_handle | head -40
            break
        fi
    done
    python3 "$QMV_DIR/tools/miri_summary.py" "$w" $jobs "$2" $bad
    return $bad
}
