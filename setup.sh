#!/bin/bash
# Builds every explorer once (offline); the checks rebuild incrementally.
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
mkdir -p "$HERE/evidence" "$HERE/out"
cd "$HERE/mc" || exit 2
mkdir -p target
(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum) > target/repo.sum
cargo build --release --offline
