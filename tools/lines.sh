#!/bin/bash
# lines.sh RUNS ids...: which source lines of /repo no run of the checks reached (separate build in target/pcs)
cd "$(dirname "$0")/.." || exit 2
n=$1; shift
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu PATH=/root/.cargo/bin:$PATH
OSUSIM_PCS=1 CARGO_TARGET_DIR=$PWD/target/pcs RUSTC_WRAPPER=$PWD/sim/rustc-wrap.sh CARGO_PROFILE_RELEASE_DEBUG=2 \
  cargo build --release --offline --manifest-path sim/Cargo.toml 2>&1 | tail -1
d=$(mktemp -d); cp known_findings.txt $d
for c in "$@"; do
  VERIF_DIR=$d VERIF_RUNS=$n OSUSIM_PCS_OUT=$d/$c.pcs target/pcs/release/osusim check $c | tail -1
done
python3 tools/lines.py target/pcs/release/osusim $d/*.pcs
rm -rf "$d"
