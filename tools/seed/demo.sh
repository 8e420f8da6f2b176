#!/bin/bash
# Builds the program beside this file against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf -- "$work"' EXIT
cp -r "$here/mc" "$here/src" "$here/Cargo.lock" "$work/" || exit 2
sed -i "/^\[workspace\]/d" "$work/mc/Cargo.toml" || exit 2
cat > "$work/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
mc = { path = "mc" }
validate-btc-header = { path = "$repo" }
bellpepper-core = { version = "0.4.0", default-features = false }
bellpepper = { version = "0.4.0", default-features = false }
ff = { version = "0.13", features = ["derive"] }
num-bigint = "0.4"
num-traits = "0.2"
nova-snark = "0.35.0"
pasta_curves = "0.5"
halo2curves = { version = "0.6", default-features = false }
[profile.dev]
debug = false
opt-level = 1
T
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
unset CARGO_RESOLVER_LOCKFILE_PATH
export CARGO_TARGET_DIR=${DEMO_TARGET:-$work/target}
cd "$work" || exit 2
cargo build --offline >"$work/log" 2>&1 || { tail -40 "$work/log"; exit 2; }
timeout 200 "$CARGO_TARGET_DIR/debug/demo"
