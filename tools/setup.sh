#!/bin/bash
# offline: builds the replay harness once and checks that the verifier is there
cd "$(dirname "$0")/.." || exit 1
mkdir -p build evidence
CARGO_TARGET_DIR=$PWD/build/harness cargo build --offline --quiet --manifest-path harness/Cargo.toml || exit 1
./build/harness/debug/conform || exit 1
verus --version >/dev/null || exit 1
