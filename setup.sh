#!/bin/bash
# Builds the harness (offline) from the committed files and /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
cd "$here/harness" && CARGO_TARGET_DIR="$here/target" cargo build --release --offline --locked
rc=$?
"$here/pybuild" || echo "the Python extension does not build"
exit $rc
