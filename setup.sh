#!/bin/bash
cd "$(dirname "$0")" || exit 2
mkdir -p target evidence replays
cd harness && cargo build --release --offline --target-dir ../target
