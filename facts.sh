#!/bin/bash
# facts.sh OUTDIR [SRC]: type-checks the workspace crates of SRC (default /repo) with the facts driver.
set -e
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset TEST_DME RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_RUSTFLAGS
V=$(cd "$(dirname "$0")" && pwd)
OUT=$1; SRC=${2:-/repo}
SYS=$(rustc +nightly --print sysroot)
export LD_LIBRARY_PATH=$SYS/lib
export CARGO_TARGET_DIR=${SPACEFACTS_TARGET:-$V/.build/target}
export SPACEFACTS_OUT=$OUT
export RUSTC_WORKSPACE_WRAPPER=$V/.build/driver/release/spacefacts
mkdir -p "$OUT"
cd "$SRC"
# forget workspace crates so that the driver sees every one of them (both target-dir layouts)
for p in builtins-proc-macro dap-types dmdoc dmm-tools dmm-tools-cli dreamchecker dreammaker interval-tree; do
  rm -rf "$CARGO_TARGET_DIR/debug/build/$p" "$CARGO_TARGET_DIR"/debug/.fingerprint/"$p"-*
done
exec cargo +nightly check --offline --workspace --exclude dm-langserver --features dmm-tools/gif,dmm-tools/png
