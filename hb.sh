#!/bin/bash
# build one harness binary from /repo's working tree
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/target RUSTFLAGS="--cfg zok_verif" CARGO_TERM_COLOR=never
cd /verif/harness && rm -rf /verif/target/release/.fingerprint/zero-over-k-*
exec cargo build --release --offline "$@"
