#!/bin/bash
# builds demo.rs against the trust graph in the current directory and runs it in a scratch directory
REPO="$PWD"; HERE="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
W="$(mktemp -d)" || exit 99
trap 'rm -rf "$W"' EXIT
cp -r "$HERE/kit" "$W/ws" && cp "$HERE/demo.rs" "$W/ws/app/src/main.rs" || exit 99
sed -i "s#@REPO@#$REPO#" "$W/ws/svc/Cargo.toml" "$W/ws/app/Cargo.toml"
cd "$W/ws" || exit 99
CARGO_TARGET_DIR="$W/target" cargo build --offline >"$W/log" 2>&1 || { tail -30 "$W/log"; exit 98; }
mkdir "$W/scratch"
DEMO_SCRATCH="$W/scratch" RUST_BACKTRACE=0 timeout 120 "$W/target/debug/demo"
