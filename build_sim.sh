#!/bin/bash
# Builds the simulator together with the router from /repo's working tree.
# Output: /verif/sim/target/debug/hrsim (or $HRSIM_TARGET/debug/hrsim)
set -e
. /opt/vp/env.sh
export CARGO_TARGET_DIR="${HRSIM_TARGET:-/verif/sim/target}"
export CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=1
# rustix must go through libc so that its epoll/eventfd/timerfd calls reach the simulator
export RUSTFLAGS='--cfg rustix_use_libc'
cd "$(dirname "$0")/sim"
# Cargo compares file times; a copied tree may carry times that lie. Compare contents as well.
H=$(cd /repo && find bin lib Cargo.toml Cargo.lock -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.graphql' -o -name '*.json' -o -name '*.html' \) -not -path '*/target/*' -not -path '*/node_modules/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
F="$CARGO_TARGET_DIR/repo.hash"
if [ -d "$CARGO_TARGET_DIR/debug" ] && [ "$(cat "$F" 2>/dev/null)" != "$H" ]; then
  rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/hive-* "$CARGO_TARGET_DIR"/debug/.fingerprint/graphql-tools-* 
fi
cargo build --offline --locked "$@"
echo "$H" > "$F"
