#!/bin/bash
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
rm -f target/sym/deps/harness-*.ll
cargo rustc -q --profile sym --offline --bin harness -- --emit=llvm-ir -C linker=/bin/true -C no-vectorize-loops -C no-vectorize-slp
ls target/sym/deps/harness-*.ll
