#!/bin/bash
# check.sh <property> [quick|thorough]: builds the simulator with the service from /repo's working tree and
# searches for a violation of the property. Exit 0: none found; 1: VIOLATION line printed; 2: the check itself failed.
set -u
P="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; SEED="${VERIF_SEED:-1}"
ROOT="$(cd "$(dirname "$0")" && pwd)"
case "$P" in C12|C15|C18|C21) TG_PROFILE=checked ;; *) TG_PROFILE=release ;; esac
# only C21 needs the library's storage interface to be as it is
case "$P" in C21) TG_FEATURES=graph ;; *) TG_FEATURES= ;; esac
. "$ROOT/tools/build.sh" || exit 2
export TGSIM_SO="$ROOT/sim/.build/so.$$"
trap 'rm -rf "$TGSIM_SO"' EXIT
mkdir -p "$TGSIM_SO" || exit 2
for i in 0 1 2 3; do cp "$ROOT/sim/target/$TG_PROFILE/libtg_service_so.so" "$TGSIM_SO/n$i.so" || exit 2; done
"$ROOT/sim/target/$TG_PROFILE/tgsim" check "$P" "$TIER" "$SEED" "$ROOT/evidence/$P.json" "$ROOT/replays" "$ROOT/known_findings.json"
