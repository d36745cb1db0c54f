#!/bin/bash
# Exit 0 if the code in the current directory behaves, nonzero otherwise.  Everything is built in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 3
trap 'find "$work" -depth -delete' EXIT
mkdir -p "$work/src"
cp "$here"/*.rs "$work/src/"
cp "$here"/*.hex "$work/" 2>/dev/null
cp "$repo/Cargo.lock" "$work/" 2>/dev/null
lua="@LUA@"
serde="@SERDE@"
release="@RELEASE@"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
lunify = { path = "$repo" }
[features]
TOML
if [ -n "$serde" ]; then
    sed -i 's/^lunify = { \(.*\) }$/lunify = { \1, features = ["serde"] }\nserde_json = "1"/' "$work/Cargo.toml"
fi
if [ -n "$lua" ]; then
    cat >> "$work/Cargo.toml" <<'TOML'
default = ["lua"]
lua = []
[dependencies.mlua]
version = "0.8"
features = ["lua51", "vendored"]
TOML
fi
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target" RUSTFLAGS="-Awarnings"
cd "$work" || exit 3
cargo build --offline --quiet ${release:+--release} || exit 3
if [ -n "$release" ]; then timeout 100 ./target/release/demo; else timeout 100 ./target/debug/demo; fi
