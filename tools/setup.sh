#!/bin/bash
# Warms the build caches; every check builds whatever is missing itself.
export CARGO_NET_OFFLINE=true
cd "$(dirname "$0")/.." || exit 1
(cd vx && cargo build --offline -q) || exit 1
(cd harness && cargo build --offline -q --workspace) || true
exit 0
