#!/bin/bash
# prints the location-free tree of each argument, parsed by the crate in /repo
cd /verif/harness && CARGO_TARGET_DIR=/tmp/ht cargo build --offline --release 2>&1 | grep -E '^error' -A6 | head -40; timeout 20 /tmp/ht/release/harness sexpr "$@" 2>&1
