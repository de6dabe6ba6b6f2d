#!/bin/bash
# Checks that the tools are there and that the harness builds from /repo.
set -e
cd "$(dirname "$0")/.."
command -v quint cargo python3 java >/dev/null
quint typecheck spec/fix.qnt >/dev/null
(cd harness && CARGO_NET_OFFLINE=true cargo build --offline --target-dir target/default 2>&1 | tail -2)
