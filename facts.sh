#!/bin/bash
# Usage: facts.sh REPO OUT TARGETDIR : dumps the facts of the crate at REPO to OUT.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$1; OUT=$2; TGT=$3
export HOME=${HOME:-/root}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
unset RUSTC_WRAPPER RUSTUP_TOOLCHAIN
SYS=$(rustc +nightly --print sysroot)
DRV=$HERE/driver/target/release/yv-driver
if [ ! -x "$DRV" ] || [ -n "$(find "$HERE/driver/src" "$HERE/driver/Cargo.toml" -newer "$DRV" | head -1)" ]; then
  (cd "$HERE/driver" && CARGO_TARGET_DIR="$HERE/driver/target" CARGO_INCREMENTAL=0 cargo +nightly build --release --offline)
  touch "$DRV"
fi
mkdir -p "$TGT"
# The crate itself is always compiled anew (cargo's layout of the build
# directory differs between versions).
find "$TGT" \( -name 'yason' -o -name 'yason-*' -o -name 'libyason*' \) -prune -exec rm -rf {} +
rm -f "$OUT"
cd "$REPO"
export LD_LIBRARY_PATH=$SYS/lib RUSTC_WORKSPACE_WRAPPER=$DRV YV_CRATE=yason YV_OUT=$OUT CARGO_TARGET_DIR=$TGT CARGO_TERM_COLOR=never RUSTFLAGS=-Awarnings CARGO_INCREMENTAL=0
# The lock file is the repository's; the build must not change it.
cargo +nightly check --lib --all-features --offline
if [ ! -s "$OUT" ]; then
  rm -rf "$TGT"/debug
  cargo +nightly check --lib --all-features --offline
fi
[ -s "$OUT" ]
