#!/bin/bash
# Builds every check once, so that dependencies are compiled.
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
export CARGO_TARGET_DIR=${PBT_TARGET:-$HERE/target}
cd "$HERE/harness" && cargo build --offline --release --bins &&
    cargo build --offline --profile wrap --bin c21 --bin c22 --bin c24 --bin c28 --bin c35 --bin c38
