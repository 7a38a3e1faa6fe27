#!/bin/bash
# builds the framework from the committed files (offline)
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys; sys.argv=["check.py"]; sys.path.insert(0,".")
import check; check.build_extract()
P
if [ -f harness/run.py ]; then python3 harness/run.py --repo /repo --build "$PWD/build" --prebuild || true; fi
