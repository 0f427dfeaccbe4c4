# sourced by check.sh, replay.sh and setup: builds /verif/sim against /repo's current working tree, offline.
# TG_PROFILE: release, or checked (arithmetic overflow aborts)
. /opt/vp/env.sh
TG_ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
tg_build() {
  cd "$TG_ROOT/sim" || return 1
  mkdir -p .build
  local prof="${TG_PROFILE:-release}"
  # cargo goes by modification times; go by content instead
  local h; h="$(find /repo/service /repo/trust-graph /repo/keypair -type f \( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.pk8' -o -name '*.der' \) -not -path '*/target/*' -print0 | sort -z | xargs -0 sha256sum | sha256sum)"
  if [ "$(cat .build/sources.$prof 2>/dev/null)" != "$h" ]; then
    cargo clean --profile $prof --offline -p tg-service -p trust-graph -p fluence-keypair -p tg-service-so -p tgsim >/dev/null 2>&1
    echo "$h" > .build/sources.$prof
  fi
  if ! cargo build --profile $prof --offline ${TG_FEATURES:+--features tgsim/$TG_FEATURES} >.build/log.$prof 2>&1; then
    echo "build failed:" >&2; tail -40 .build/log.$prof >&2; rm -f .build/sources.$prof; return 1
  fi
}
tg_build
