#!/bin/bash
# check.sh ID [--thorough]: rebuilds the harness against /repo's working tree and
# runs one property's check.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
log=$(mktemp /tmp/qv-build.XXXXXX)
if ! cargo build --release --offline --manifest-path harness/Cargo.toml >"$log" 2>&1; then
    tail -40 "$log"
    rm -f "$log"
    echo "ERROR property=$1 the harness does not build against /repo"
    exit 2
fi
rm -f "$log"
exec harness/target/release/qv check "$@"
