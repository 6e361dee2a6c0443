#!/bin/bash
# Build the harness against /repo's current tree (re-using /repo's own dependency builds).
. /opt/vp/env.sh
cd /verif/harness || exit 2
export CARGO_TARGET_DIR=${MB_TARGET:-/repo/target}
rm -rf "$CARGO_TARGET_DIR"/debug/.fingerprint/miniboosts-* 
exec cargo build --offline --bins "$@"
