#!/bin/bash
# builds the extractor and the harness, offline
set -e
cd "$(dirname "$0")"
mkdir -p .build
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true
(cd extract && CARGO_TARGET_DIR=../.build/extract cargo build --offline --quiet 2>../.build/setup.log) || { cat .build/setup.log; exit 1; }
(cd harness && CARGO_TARGET_DIR=../.build/harness cargo build --offline --quiet 2>../.build/setup.log) || { cat .build/setup.log; exit 1; }
