#!/bin/bash
# check.sh ID quick|thorough: builds the harness against /repo's working tree
# and decides one property: first the check proper, then the coverage-guided
# search, whose build runs beside the check. Exit 0 held, 1 VIOLATION, 2 could
# not decide.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/env.sh"
id="$1"
tier="${2:-quick}"
cd "$here/harness" || exit 2
log="$(mktemp)"
if ! cargo build --release --offline --quiet >"$log" 2>&1; then
    tail -50 "$log" >&2
    rm -f "$log"
    echo "the harness does not build against /repo" >&2
    exit 2
fi
guided="$VERIF/target/guided"
RUSTC_WRAPPER="$here/tools/cov-wrapper.sh" CARGO_TARGET_DIR="$guided" nice cargo build --release --offline --quiet >"$log" 2>&1 &
building=$!
"$CARGO_TARGET_DIR/release/vh" check "$id" "$tier"
rc=$?
if [ $rc -ne 0 ]; then
    kill $building 2>/dev/null
    rm -f "$log"
    exit $rc
fi
if ! wait $building; then
    tail -5 "$log" >&2
    rm -f "$log"
    echo "no coverage-guided search: its build failed" >&2
    exit 0
fi
rm -f "$log"
exec "$guided/release/vh" guide "$id" "$tier"
