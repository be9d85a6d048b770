#!/bin/bash
# Builds the model checker against /repo's current working tree.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh" || exit 2
cd "$here/mc" || exit 2
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.mc-lock"
flock 9
# Cargo decides by modification times; decide by content instead, so that a
# checkout that sets times back can never leave a stale build behind.
sum="$(cd /repo && find src build.rs Cargo.toml Cargo.lock -type f 2>/dev/null | LC_ALL=C sort | xargs sha256sum | sha256sum)"
mark="$CARGO_TARGET_DIR/.repo-sum"
if [ "$(cat "$mark" 2>/dev/null)" != "$sum" ]; then
    rm -f "$mark"
    cargo clean --offline --release -p substrait-explain >/dev/null 2>&1
fi
if ! cargo build --release --offline >"$CARGO_TARGET_DIR/build.log" 2>&1; then
    tail -40 "$CARGO_TARGET_DIR/build.log" >&2
    echo "the model checker does not build against /repo" >&2
    exit 2
fi
echo "$sum" >"$mark"
