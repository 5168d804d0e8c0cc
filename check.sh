#!/bin/bash
# check.sh <property> <quick|thorough>: rebuild the simulator from /repo's working tree, then search.
cd "$(dirname "$0")/sim" || exit 2
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR CARGO_BUILD_RUSTC_WRAPPER RUSTUP_TOOLCHAIN CARGO_INCREMENTAL CARGO_ENCODED_RUSTFLAGS
if ! cargo build --release --offline --locked >out.build.log 2>&1; then
  tail -40 out.build.log >&2
  echo "the simulator does not build against /repo" >&2
  exit 2
fi
[ "$1" = build ] && exit 0
exec ./target/release/sdsim check "$1" "${2:-quick}"
