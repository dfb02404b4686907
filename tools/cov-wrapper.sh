#!/bin/sh
# RUSTC_WRAPPER of the guided build: adds edge coverage to the code under test
# and to the crate that holds the instances of its generic functions. They have
# no debug assertions here (as in a release), but still overflow checks.
name=
prev=
for a in "$@"; do
    [ "$prev" = "--crate-name" ] && name="$a"
    prev="$a"
done
case "$name" in
httlib_*|calls) exec "$@" -Cdebug-assertions=off -Coverflow-checks=on -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
*) exec "$@" ;;
esac
