#!/bin/bash
# Checks that the framework builds from the committed files (each check builds what it needs again by itself).
set -u
cd "$(dirname "$0")/.." || exit 2
export VERIF_ROOT="$PWD"
. tools/env.sh
python3 tools/mirror.py /repo "$VERIF_ROOT/build/ws" || exit 2
cd harness && cargo build --offline -p pbt > ../build/setup.log 2>&1 || { tail -30 ../build/setup.log; exit 2; }
