#!/bin/bash
# Build the harness from /repo's current working tree. Contents decide whether the
# crate is stale, not modification times.
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
cd "$here/harness" || exit 2
export CARGO_TARGET_DIR="$here/harness/target" CARGO_NET_OFFLINE=true
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.vlock"
flock 9
now="$(find /repo -path /repo/target -prune -o -path /repo/.git -prune -o -path '*/target' -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.adext' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
stamp="$CARGO_TARGET_DIR/.repo-state"
if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$now" ]; then
  rm -f "$stamp"
  cargo clean --offline --release -p adextopa-core -p adextopa_macros >/dev/null 2>&1
fi
if ! cargo build --release --offline --locked >"$CARGO_TARGET_DIR/build.log" 2>&1; then
  grep -E '^error' -A 12 "$CARGO_TARGET_DIR/build.log" | head -60
  tail -5 "$CARGO_TARGET_DIR/build.log"
  echo "ERROR: the harness does not build"
  exit 2
fi
echo "$now" >"$stamp"
