#!/bin/sh
# Build the recorder and the binary against /repo, offline.
set -e
cd "$(dirname "$0")/harness"
cargo build --release --offline --locked
