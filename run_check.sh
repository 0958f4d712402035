#!/bin/bash
# run_check.sh build | <property> [quick|thorough] [ksim options]
# Builds the simulator against /repo's current tree and runs the check of one property.
cd "$(dirname "$0")" || exit 3
. ./env.sh
export CARGO_TARGET_DIR="$PWD/sim/target"
BIN="$CARGO_TARGET_DIR/debug/ksim"

build() {
    mkdir -p "$CARGO_TARGET_DIR"
    # cargo goes by mtimes; go by contents instead
    now=$( { cat /repo/Cargo.toml; find /repo/src sim/src sim/Cargo.toml sim/Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum)
    if [ "$now" = "$(cat "$CARGO_TARGET_DIR/ksim-source.sha256" 2>/dev/null)" ] && [ -x "$BIN" ]; then
        return 0
    fi
    rm -f "$BIN" "$CARGO_TARGET_DIR/ksim-source.sha256"
    find "$CARGO_TARGET_DIR/debug/.fingerprint" -maxdepth 1 \( -name 'keride-*' -o -name 'ksim-*' \) -exec rm -rf {} + 2>/dev/null
    if ! (cd sim && cargo build --offline --locked) >"$CARGO_TARGET_DIR/build.log" 2>&1; then
        # hooks that no longer fit the code: decide without them what can be decided without them
        export RUSTFLAGS=""
        if ! (cd sim && cargo build --offline --locked) >>"$CARGO_TARGET_DIR/build.log" 2>&1; then
            grep -E '^error' -A8 "$CARGO_TARGET_DIR/build.log" | head -60 >&2
            echo "run_check.sh: the simulator does not build against /repo" >&2
            return 1
        fi
        echo "run_check.sh: built without hooks" >&2
    fi
    echo "$now" >"$CARGO_TARGET_DIR/ksim-source.sha256"
}

build || exit 3
[ "$1" = build ] && exit 0
id="$1"
tier="${2:-${VERIF_TIER:-quick}}"
shift; shift
exec "$BIN" check "$id" --tier "$tier" --seed "${VERIF_SEED:-1}" --root "$PWD" "$@"
