#!/bin/bash
# try.sh PATCH|-R:COMMIT|none [ID...]: runs checks (default: all) against a scratch copy of
# /repo with the patch applied, and the stable tests. Everything under /tmp/scr.
# STEP=check or STEP=guide runs one half of them; by default the guided search
# follows a check that held.
S=${SCR:-/tmp/scr}
here="$(cd "$(dirname "$0")/.." && pwd)"
patch="$1"; shift
. "$here/env.sh"
mkdir -p $S/verif
[ -d $S/repo ] || cp -a /repo $S/repo
git -C $S/repo fetch -q /repo HEAD && git -C $S/repo reset -q --hard FETCH_HEAD
mkdir -p $S/harness && cp -a "$here"/harness/. $S/harness/ && sed -i "s#\"/repo/#\"$S/repo/#" $S/harness/Cargo.toml $S/harness/calls/Cargo.toml
case "$patch" in
none) ;;
-R:*) git -C $S/repo revert --no-edit -n "${patch#-R:}" || exit 3 ;;
*) git -C $S/repo apply "$(realpath "$patch")" || exit 3 ;;
esac
if [ -z "$NOTEST" ]; then
  (cd $S/repo && CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=$S/repo/target cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > $S/test.log 2>&1)
  echo "tests: $(grep -E '^test result' $S/test.log | awk '{p+=$4;f+=$6} END {print p" passed, "f" failed"}') $(grep -c '^error' $S/test.log) errors"
fi
export VERIF=$S/verif VH_REPO=$S/repo
build() { (cd $S/harness && CARGO_TARGET_DIR="$1" RUSTC_WRAPPER="$2" cargo build --release --offline --quiet 2>$S/build.log) || { tail -30 $S/build.log; echo "harness build failed"; exit 2; }; }
[ "$STEP" = guide ] || build $S/target ""
[ "$STEP" = check ] || build $S/guided "$here/tools/cov-wrapper.sh"
bin=$S/target/release/vh; [ -x $bin ] || bin=$S/guided/release/vh
ids="$*"; [ -n "$ids" ] || ids=$($bin list)
for p in $ids; do
  rc=0
  if [ "$STEP" != guide ]; then
    out=$($S/target/release/vh check $p ${TIER:-quick} 2>&1); rc=$?; by=check
  fi
  if [ $rc = 0 ] && [ "$STEP" != check ]; then
    out=$($S/guided/release/vh guide $p ${TIER:-quick} 2>&1); rc=$?; by=guided
  fi
  echo "$p rc=$rc $by $(echo "$out" | grep -E 'fails in|stopped' | head -1 | cut -c1-${WIDTH:-260})"
done
git -C $S/repo reset -q --hard
