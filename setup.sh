#!/bin/bash
# Builds the drivers against /repo's working tree. The checks do the same again, this only warms up.
cd "$(dirname "$0")/harness" && CARGO_TARGET_DIR="$(dirname "$PWD")/target" RUSTFLAGS=-Awarnings cargo build --offline --quiet --bins
