#!/bin/bash
# Builds the harness from the committed files (offline).
cd "$(dirname "$0")" || exit 2
. ./env.sh
cd harness && cargo build --release --offline --locked -q
