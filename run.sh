#!/bin/bash
# run.sh <property> <quick|thorough>   rebuilds the checker against /repo's working tree, then checks
# run.sh --build                        build only
ROOT=$(dirname "$(realpath "$0")")
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
cd "$ROOT" || exit 2
export CARGO_NET_OFFLINE=true RUSTFLAGS="-Awarnings" CARGO_TARGET_DIR="$ROOT/mc/target"
unset CARGO_BUILD_TARGET CARGO_INCREMENTAL
if ! (cd mc && cargo build --release --offline --locked -q) ; then
  echo "build of the checker against /repo failed" >&2
  exit 2
fi
# the command line tool itself, where a property is about it
case "$1" in
  --build|C08)
    if ! CARGO_TARGET_DIR="$ROOT/mc/target/repo" cargo build --manifest-path /repo/Cargo.toml -p asciidork-cli --offline --locked -q ; then
      echo "build of the command line tool failed" >&2
      exit 2
    fi ;;
esac
[ "$1" = "--build" ] && exit 0
export ADK_ROOT="$ROOT"
exec "$ROOT/mc/target/release/adk-mc" check "$1" "${2:-quick}"
