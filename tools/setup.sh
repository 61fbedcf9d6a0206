#!/bin/bash
# build the contract-evaluation crate once (its dependencies are then cached under .build)
set -e
cd "$(dirname "$0")/.."
mkdir -p .build evidence
cd replay && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/../.build/replay" cargo +1.83.0 build --release --offline --locked -q
