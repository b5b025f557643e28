#!/bin/bash
# Builds demo.rs against /repo, with the hooks it needs, and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src" && cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
libopenraw = { path = "$PWD", default-features = false }
[workspace]
T
flags="-Awarnings --cfg libopenraw_verif"
for g in $(sed -n 's,^// hooks:,,p' "$here/demo.rs"); do flags="$flags --cfg libopenraw_verif=\"$g\""; done
cd "$tmp" && unset CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR
RUSTFLAGS="$flags" CARGO_NET_OFFLINE=true RUST_BACKTRACE=0 timeout 280 cargo +stable run --offline -q --target-dir "$tmp/target"
