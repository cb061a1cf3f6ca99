#!/bin/bash
# ./run.sh <property id>     build from /repo's working tree, explore, report
# ./run.sh replay <file>     build and re-execute the one case of a replay file
# ./run.sh build             build only
cd "$(dirname "$0")" || exit 2
export MC_ROOT="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
# lints are the business of the repository's own build, not of the checks
export RUSTFLAGS="--cap-lints allow"
export CARGO_INCREMENTAL=0 CARGO_NET_OFFLINE=true
log=$(mktemp)
if ! cargo build --release --offline --locked --manifest-path mc/Cargo.toml --target-dir mc/target >"$log" 2>&1; then
  cat "$log" >&2
  rm -f "$log"
  echo "the harness does not build against /repo" >&2
  exit 2
fi
rm -f "$log"
case "$1" in
  build) exit 0 ;;
  replay) exec mc/target/release/mc replay "$2" ;;
  *) exec mc/target/release/mc run "$1" ;;
esac
