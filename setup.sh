#!/bin/bash
# Offline build of every harness crate (checks rebuild on their own; this only proves it works).
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
export VERIF_TARGET=${VERIF_TARGET:-$HERE/target}
. "$HERE/harness/env.sh"
cd "$HERE/harness"
cargo build --offline --locked --release 2>&1 | tail -3
mkdir -p "$HERE/evidence"
