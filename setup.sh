#!/bin/bash
# Builds the symbolic engine and its harnesses (offline).
set -e
cd "$(dirname "$0")"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
(cd engine && cargo build --release --offline && cargo build --profile wrap --offline)
(cd kharness && cargo build --release --offline)
