#!/bin/bash
# Run with the working directory in the repository. Exit 0: the property holds for the case shown.
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
D=$(cd "$(dirname "$0")" && pwd) R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$D/demo.rs" "$T/src/main.rs"
[ -e "$D/Cargo.lock" ] && cp "$D/Cargo.lock" "$T/"
cat > "$T/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
bae_rs = { path = "$R" }
TOML
cd "$T" && CARGO_TARGET_DIR=$T/target cargo run --offline --quiet
