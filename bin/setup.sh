#!/bin/bash
# Builds the harness from /repo's working tree.
cd "$(dirname "$0")/.." && . bin/env.sh
for h in harness/*/Cargo.toml; do (cd "$(dirname "$h")" && cargo build --offline -q) || exit 1; done
