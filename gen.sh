#!/bin/bash
cd /verif/extract && cargo build --release --offline 2>&1 | grep -E '^error' -A5; rm -rf /tmp/gen; ./target/release/extract ${SRC:-/repo/src} /verif/contracts /verif/spec /tmp/gen; cat /tmp/gen/lost-anchors.txt
