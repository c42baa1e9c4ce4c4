#!/bin/bash
# tools/check.sh ID [--replay FILE]: rebuilds from /repo's working tree and runs the check of one property.
# Exit 0: held. Exit 1 and a VIOLATION line: broken. Anything else: the check itself failed.
set -u
cd "$(dirname "$0")/.." || exit 2
export VERIF_ROOT="$PWD"
. tools/env.sh
id=$1; shift
bin=$(echo "$id" | tr 'A-Z' 'a-z')
python3 tools/mirror.py "${VERIF_REPO:-/repo}" "$VERIF_ROOT/build/ws" || exit 2
mkdir -p build evidence
log=build/$id.build.log
build() { (cd harness && cargo build --offline -p sim --bin "$bin" "$@") > "$log" 2>&1; }
if grep -q "^$bin = " harness/sim/Cargo.toml; then
    # The unit-level part of a check uses interfaces inside the crates; without it the check still has its histories.
    build --features "$bin" || { echo "$id: the unit-level part does not build against this tree; histories only" >&2; build; }
else
    build
fi
if [ $? != 0 ]; then
    grep -E -A8 '^error' "$log" | head -60 >&2
    echo "$id: the harness does not build against this tree (see $log)" >&2
    exit 2
fi
exec "$CARGO_TARGET_DIR/debug/$bin" "$@"
