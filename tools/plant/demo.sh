#!/bin/bash
# Builds main.rs against the crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
rm -rf /tmp/quarchitect-demo-@ID@
mkdir -p /tmp/quarchitect-demo-@ID@/src /tmp/quarchitect-demo-@ID@/files || exit 2
cp "$here"/*.rs /tmp/quarchitect-demo-@ID@/src/
cat >/tmp/quarchitect-demo-@ID@/Cargo.toml <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
quarchitect = { path = "$repo" }
T
cd /tmp/quarchitect-demo-@ID@ || exit 2
export RUST_BACKTRACE=0
export CARGO_TARGET_DIR=/tmp/quarchitect-demo-@ID@/target
if ! cargo build --offline -q 2>build.log; then
    cat build.log
    exit 2
fi
cd files && "$CARGO_TARGET_DIR/debug/demo" >/dev/null
rc=$?
cd /
rm -rf /tmp/quarchitect-demo-@ID@
exit $rc
