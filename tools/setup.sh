#!/bin/bash
# Builds the framework from the committed files: the bounded harness in both configurations.
set -e
cd "$(dirname "$0")/.."
mkdir -p build out evidence
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/build/target-a cargo build --release --offline --locked --manifest-path harness/Cargo.toml &
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/build/target-b cargo build --release --offline --locked --manifest-path harness/Cargo.toml --features alt &
CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/build/target-vx cargo build --release --offline --locked --manifest-path vx/Cargo.toml
wait %1; wait %2
