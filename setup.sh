#!/bin/bash
# Builds the harness; the checks do it again when /repo changed.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
mkdir -p "$here/evidence" "$here/replays"
cd "$here/harness" || exit 2
RUSTC_WRAPPER="$here/tools/cov-wrapper.sh" CARGO_TARGET_DIR="$VERIF/target/guided" cargo build --release --offline --quiet 2>/dev/null &
cargo build --release --offline --quiet 2>/dev/null || cargo build --release --offline
rc=$?
wait
exit $rc
