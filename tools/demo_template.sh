#!/bin/bash
# Builds the small program beside this script against the library in the
# current directory and runs it: exit 0 when the property holds.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
work="$(mktemp -d)" || exit 3
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[dependencies]
quantmath = { path = "$repo" }
serde_json = "1.0"

[workspace]
TOML
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS
cd "$work" || exit 3
cargo build --offline > "$work/build.log" 2>&1 || { grep -E '^error' -A10 "$work/build.log" | head -40; echo "DEMO BUILD FAILED"; exit 3; }
"$work/target/debug/demo"
