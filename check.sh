#!/bin/bash
# usage: check.sh <property> quick|thorough
cd "$(dirname "$0")" || exit 2
export VERIF_ROOT=$PWD
. ./env.sh
cd harness || exit 2
if ! cargo build --release --offline --locked -q 2>"${TMPDIR:-/tmp}/mc-build.$$.log"; then
    cat "${TMPDIR:-/tmp}/mc-build.$$.log" >&2
    rm -f "${TMPDIR:-/tmp}/mc-build.$$.log"
    exit 2
fi
rm -f "${TMPDIR:-/tmp}/mc-build.$$.log"
exec "$CARGO_TARGET_DIR/release/mc" "$1" "${2:-${VERIF_TIER:-quick}}"
