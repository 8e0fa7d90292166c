#!/bin/sh
# Rebuild the simulator from /repo's current working tree.
cd "$(dirname "$0")" || exit 2
export RUSTC_WRAPPER="$PWD/rustc-wrap.sh" CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
# File times are not a reliable sign of a change (git checkout, copied trees): always recompile.
find target/release/.fingerprint -maxdepth 1 \( -name 'rqrr-*' -o -name 'glue-*' -o -name 'sim-*' -o -name 'simrt-*' \) -exec rm -rf {} + 2>/dev/null
exec cargo build --release --offline --quiet
