#!/bin/bash
# check.sh ID [quick|thorough]: builds the simulator against /repo's working
# tree and runs one property's check.
cd "$(dirname "$0")" || exit 2
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export VERIF_DIR="$PWD" CARGO_TARGET_DIR="$PWD/target" CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER="$PWD/sim/rustc-wrap.sh"
mkdir -p target evidence replays
log="target/build.$$.log"
(
  flock 9
  cargo build --release --offline --manifest-path sim/Cargo.toml >"$log" 2>&1 && exit 0
  # a link error from instrumentation that meets an operation without a seam: instrument less
  OSUSIM_BLOCKS_ONLY=1 CARGO_TARGET_DIR="$PWD/target/blocks" \
    cargo build --release --offline --manifest-path sim/Cargo.toml >>"$log" 2>&1 || exit 1
  mkdir -p target/release && cp --remove-destination target/blocks/release/osusim target/release/osusim
) 9>target/.build-lock
rc=$?
if [ $rc -ne 0 ]; then cat "$log" >&2; rm -f "$log"; exit 2; fi
rm -f "$log"
[ "$1" = build ] && exit 0
[ -n "$2" ] && export VERIF_TIER="$2"
exec target/release/osusim check "$1"
