#!/bin/bash
# Build the extractor and the harness (offline). The checks rebuild what they
# need themselves when this output is not there.
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import check
print(check.build_extractor())
print(check.build_harness())
P
