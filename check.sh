#!/bin/bash
# Usage: check.sh <property id> | check.sh replay <file> | check.sh build
# Builds the checker against /repo's current tree and runs one check. Exit 0 held, 1 violated, 2 no verdict.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_TARGET_DIR="$here/target" CARGO_NET_OFFLINE=true VERIF_ROOT="$here"
mkdir -p "$CARGO_TARGET_DIR"
# Rebuild whenever the sources differ from those last built, whatever their time stamps say.
now=$(cd /repo && { cat Cargo.toml; find src -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
stamp="$CARGO_TARGET_DIR/.repo.sha"
(
  flock 9
  if [ "$(cat "$stamp" 2>/dev/null)" != "$now" ]; then
    (cd "$here/mc" && cargo clean --release --offline -p async_zip >/dev/null 2>&1)
    rm -rf "$CARGO_TARGET_DIR"/probe[0-9]/debug/.fingerprint/async_zip-*
  fi
  if ! (cd "$here/mc" && cargo build --release --offline --quiet) >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    cat "$CARGO_TARGET_DIR/build.log" >&2
    echo "check.sh: build failed" >&2
    exit 2
  fi
  echo "$now" >"$stamp"
) 9>"$CARGO_TARGET_DIR/.lock" || exit 2
[ "${1:-}" = build ] && exit 0
cd "$here/mc" && exec "$CARGO_TARGET_DIR/release/mc" "$@"
