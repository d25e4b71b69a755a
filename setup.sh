#!/bin/bash
# Builds the harness once, offline, to show that everything it needs is here.
here="$(cd "$(dirname "$0")" && pwd)"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$here/target" RUSTUP_TOOLCHAIN=stable
cd "$here/harness" && cargo build --release --offline --locked 2>&1 | tail -2
exit "${PIPESTATUS[0]}"
