#!/bin/bash
# Runs demo.rs against the splr in the current directory: 0 if the property holds there.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d /tmp/splr-demo.XXXXXX) || exit 9
trap 'cd /; find "$t" -delete' EXIT
mkdir "$t/src"
cp "$here/demo.rs" "$t/src/main.rs"
cat >"$t/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
splr = { path = "$repo" }
[profile.dev]
opt-level = 1
debug = false
debug-assertions = false
overflow-checks = false
[workspace]
TOML
cd "$t" || exit 9
export CARGO_TARGET_DIR=$t/target CARGO_NET_OFFLINE=true
cargo build --offline >"$t/log" 2>&1 || { cat "$t/log"; exit 9; }
timeout 120 "$t/target/debug/demo"
