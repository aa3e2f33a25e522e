#!/bin/bash
# Build the interleaving explorer with the library instrumented.
cd "$(dirname "$0")" || exit 2
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target/interleave RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
exec cargo build --release --offline
