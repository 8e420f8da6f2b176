#!/bin/bash
# Builds every checker and cross-checks the explorer against unpruned enumeration.
cd /verif || exit 2
mkdir -p out evidence
cargo build --offline --locked --manifest-path harness/Cargo.toml --target-dir target --bins >out/setup.log 2>&1 || { tail -40 out/setup.log; exit 2; }
exec target/debug/util selftest
