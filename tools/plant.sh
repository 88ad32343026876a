#!/bin/bash
# usage: plant.sh new            make the scratch copy /tmp/wt of /repo
#        plant.sh save <id>      take the edit in /tmp/wt as seeded/<id>/patch.diff, after confirming it
#        plant.sh try <id> <property>...   run checks of /verif against the seeded change
# The edit must compile, pass the stable tests, and its demo must pass without and fail with it.
set -u
V=/verif
case "$1" in
new)
  rm -rf /tmp/wt; mkdir -p /tmp/wt; cp -a /repo/. /tmp/wt/ ;;
save)
  id="$2"; d="$V/seeded/$id"
  git -C /tmp/wt diff > /tmp/wt.diff
  [ -s /tmp/wt.diff ] || { echo "no edit"; exit 1; }
  cp /tmp/wt.diff "$d/patch.diff"
  [ -f "$d/demo.sh" ] || cp $V/tools/demo_template.sh "$d/demo.sh"
  cd /tmp/wt || exit 1
  export CARGO_TARGET_DIR=/tmp/wt/target RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
  unset RUSTFLAGS
  rm -rf /tmp/wt/target/debug/.fingerprint/quantmath-*
  cargo test --workspace --offline --locked -- --skip pricers::montecarlo::tests:: > /tmp/wt.test 2>&1
  grep -E "^error(\[|: could not compile)" -A8 /tmp/wt.test | head -30
  bad=$(grep -E "^test .* \.\.\. FAILED" /tmp/wt.test | grep -v "brent::tests::problem_of_the_day")
  n=$(grep -cE "^test .* ok$" /tmp/wt.test)
  echo "tests ok: $n; unexpected failures: ${bad:-none}"
  [ "$n" -ge 134 ] && [ -z "$bad" ] || { echo "REJECTED (tests)"; exit 1; }
  (cd /tmp/wt && bash "$d/demo.sh" > /tmp/wt.demo 2>&1); w=$?
  tail -3 /tmp/wt.demo
  git -C /tmp/wt stash -q
  (cd /tmp/wt && bash "$d/demo.sh" > /tmp/wt.demo0 2>&1); o=$?
  git -C /tmp/wt stash drop -q
  echo "demo: with change exit $w, without exit $o"
  [ $w -ne 0 ] && [ $o -eq 0 ] && ! grep -q "DEMO BUILD FAILED" /tmp/wt.demo || { tail -20 /tmp/wt.demo0; echo "REJECTED (demo)"; exit 1; }
  echo "ACCEPTED $id" ;;
try)
  id="$2"; shift 2
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  git -C /repo apply "$V/seeded/$id/patch.diff" || exit 1
  for p in "$@"; do
    out=$(cd $V && VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick timeout 900 bash run.sh $p quick 2>&1); rc=$?
    echo "$id: $p exit $rc $(echo "$out" | grep -E '^VIOLATION|NOT ENOUGH|HARNESS|BUILD' | head -1) $(echo "$out" | grep 'violation in' | head -1 | cut -c1-200)"
  done
  git -C /repo checkout -q -- . ;;
esac
