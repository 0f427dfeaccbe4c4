#!/bin/bash
# replay.sh <file>: re-executes a recorded trace on /repo's current tree (1: reproduced, 0: passes, 3: fails differently)
ROOT="$(cd "$(dirname "$0")" && pwd)"
F="$(realpath "$1")"
# replay files are named after their property
case "$(basename "$F")" in C12*|C15*|C18*|C21*) TG_PROFILE=checked ;; *) TG_PROFILE=release ;; esac
case "$(basename "$F")" in C21*) TG_FEATURES=graph ;; *) TG_FEATURES= ;; esac
. "$ROOT/tools/build.sh" || exit 2
export TGSIM_SO="$ROOT/sim/.build/so.$$"
trap 'rm -rf "$TGSIM_SO"' EXIT
mkdir -p "$TGSIM_SO"
for i in 0 1 2 3; do cp "$ROOT/sim/target/$TG_PROFILE/libtg_service_so.so" "$TGSIM_SO/n$i.so" || exit 2; done
"$ROOT/sim/target/$TG_PROFILE/tgsim" replay "$F"
