#!/bin/bash
# Exit 0 when the behaviour is right, non-zero when it is broken. Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d /tmp/dhtdemo.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here"/main.rs "$here"/common.rs "$work/src/"
cat > "$work/Cargo.toml" <<TOML
[package]
name = "dhtdemo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rustdht = { path = "$repo" }
rustfft = "~5"
num-traits = "0.2"
[profile.release]
debug-assertions = __DBG__
TOML
unset RUSTFLAGS CARGO_TARGET_DIR RUSTC_WRAPPER
export CARGO_NET_OFFLINE=true
cargo build --offline --release --quiet --manifest-path "$work/Cargo.toml" --target-dir "$work/target" || exit 3
timeout 200 "$work/target/release/dhtdemo"
