#!/bin/bash
# check.sh ID [quick|thorough] [--replay suite:index]
# Rebuilds the explorer of property ID against /repo's working tree and runs it.
ID="$1"; shift
HERE="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
export MC_ROOT="$HERE"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
BIN="$(echo "$ID" | tr 'A-Z' 'a-z')"
cd "$HERE/mc" || exit 2
# cargo notices changes by modification time; make sure it also notices by content
SUM="$(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$SUM" != "$(cat target/repo.sum 2>/dev/null)" ]; then
  cargo clean --release --offline --quiet -p scarlet 2>/dev/null
  mkdir -p target && echo "$SUM" > target/repo.sum
fi
if ! cargo build --release --offline --quiet --bin "$BIN" 2>"$HERE/mc/build-$BIN.log"; then
  cat "$HERE/mc/build-$BIN.log" >&2
  echo "check $ID: build failed" >&2
  exit 2
fi
rm -f "$HERE/mc/build-$BIN.log"
"$HERE/mc/target/release/$BIN" "$@"
rc=$?
# 134 abort, 136 FPE, 139 segfault / stack overflow: the code under test brought the process down
case $rc in
  134|136|139)
    mkdir -p "$HERE/out/replays"
    echo "the code under test killed the explorer (status $rc); replay: bash $HERE/check.sh $ID $*" | tee "$HERE/out/replays/$ID-crash.txt"
    echo "VIOLATION property=$ID replay=$HERE/out/replays/$ID-crash.txt"
    exit 1;;
esac
exit $rc
