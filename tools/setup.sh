#!/bin/bash
# builds the symbolic executor; the checks build the rest from /repo's current tree
set -e
cd "$(dirname "$0")/../engine"
RUSTUP_TOOLCHAIN=stable cargo build --offline --release -q
