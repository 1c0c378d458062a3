#!/bin/bash
# run.sh <property> [quick|thorough]   one check against /repo's working tree
# run.sh setup                         build everything
# run.sh replay <file>                 rerun a recorded case
# Exit: 0 held, 1 violation, 2 no answer (does not build, harness error).
set -u
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
T=${GPTV_TARGET:-$V/target}
mkdir -p "$T"

# cargo goes by modification times; a tree whose files changed without newer times would not
# be rebuilt
fresh() { # target dir
  local h
  h=$(cd /repo && { find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
  if [ "$(cat "$1/.tree" 2>/dev/null)" != "$h" ]; then
    rm -f "$1/.tree"
    (cd "$V/harness" && CARGO_TARGET_DIR=$1 cargo --offline clean -q -p gpt "${@:2}") 2>/dev/null
  fi
  echo "$h"
}

build() { # target dir, cargo arguments
  local d=$1 h log
  shift
  mkdir -p "$d"
  exec 9>"$d/.lock"
  flock 9
  local prof=()
  [[ " $* " == *" --profile variant "* ]] && prof=(--profile variant)
  h=$(fresh "$d" "${prof[@]}")
  log=$(mktemp)
  if ! (cd "$V/harness" && CARGO_TARGET_DIR=$d cargo --offline build -q "$@") >"$log" 2>&1; then
    tail -40 "$log" >&2
    rm -f "$log"
    echo "BUILD FAILED: /repo's tree does not build with the harness" >&2
    return 2
  fi
  rm -f "$log"
  echo "$h" >"$d/.tree"
  flock -u 9
  exec 9>&-
}

variants() {
  local p=()
  (build "$T/log" --profile variant --features log) & p+=($!)
  (build "$T/tracing" --profile variant --features tracing) & p+=($!)
  (build "$T/both" --profile variant --features log,tracing) & p+=($!)
  local r=0
  for x in "${p[@]}"; do wait "$x" || r=2; done
  return $r
}

case "${1:-}" in
  setup)
    build "$T" || exit 2
    variants || exit 2
    ;;
  replay)
    build "$T" || exit 2
    grep -q '"property": "C32"' "$2" && { variants || exit 2; }
    GPTV_VARIANTS=$T exec "$T/debug/gptverify" replay "$2"
    ;;
  C[0-9][0-9])
    if [ "$1" = C32 ]; then
      (variants) & v=$!
      build "$T" || { wait $v; exit 2; }
      wait $v || exit 2
    else
      build "$T" || exit 2
    fi
    GPTV_VARIANTS=$T exec timeout -k 5 "${GPTV_LIMIT:-860}" "$T/debug/gptverify" check "$1" "${2:-${VERIF_TIER:-quick}}"
    ;;
  *)
    echo "usage: run.sh <C01..C36> [quick|thorough] | setup | replay <file>" >&2
    exit 2
    ;;
esac
