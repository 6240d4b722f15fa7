#!/bin/bash
# check.sh <property> [quick|thorough]: builds the harness against /repo's current tree and runs one property's check.
# exit 0: held on everything explored; 1: violation; anything else: no verdict.
cd "$(dirname "$0")" || exit 2
mkdir -p target
(
  flock 9
  cd harness && cargo build --release --offline --quiet --target-dir ../target 2>../target/build.log
) 9>target/.lock || { echo "harness does not build against /repo:"; tail -40 target/build.log; exit 2; }
exec ./target/release/harness "$1" "${2:-${VERIF_TIER:-quick}}"
