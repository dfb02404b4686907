#!/bin/bash
# Compares the reference models with Go's x/net and protowire on generated
# streams: crosscheck.sh [cases] [seed]. Not a registered check.
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/../env.sh"
d=$(mktemp -d)
cp "$here/crosscheck/main.go" $d/
printf 'module crosscheck\ngo 1.25.0\nrequire golang.org/x/net v0.61.0\nrequire google.golang.org/protobuf v1.26.0\n' > $d/go.mod
(cd $d && PATH=/usr/local/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off go build -o x .) || exit 2
cd "$here/../harness" && cargo build --release --offline --quiet --example crosscheck || exit 2
"$CARGO_TARGET_DIR/release/examples/crosscheck" "${1:-20000}" "${2:-1}" | $d/x
rc=$?
rm -r "$d"
exit $rc
