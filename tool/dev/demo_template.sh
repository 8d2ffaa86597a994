#!/bin/bash
# Builds demo.rs against the library in the current directory and runs it. Exit 0: behaves as promised.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
FEATURES='@FEATURES@'; PROFILE="@PROFILE@"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src"; cp "$here/demo.rs" "$t/src/main.rs"; cp "$repo/Cargo.lock" "$t/Cargo.lock" 2>/dev/null
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
imagequant = { path = "$repo", default-features = false, features = [$FEATURES] }
imagequant-sys = { path = "$repo/imagequant-sys", default-features = false }
[profile.dev]
opt-level = 1
X
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cd "$t" || exit 2
cargo build -q --offline $PROFILE || exit 2
d=debug; [ "$PROFILE" = "--release" ] && d=release
timeout 200 "$t/target/$d/demo"
