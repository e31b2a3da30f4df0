#!/bin/bash
# Builds the harness from the committed files and /repo's working tree.
set -e
cd "$(dirname "$0")/.."
. bin/env.sh
cargo build --offline --quiet --manifest-path harness/Cargo.toml --workspace
