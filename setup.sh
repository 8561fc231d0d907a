#!/bin/bash
# Checks the tools and builds once, so that the first check is not slower than the others.
cd "$(dirname "$0")" || exit 2
java -version >/dev/null 2>&1 || { echo "no java"; exit 1; }
python3 - <<'P'
import sys
sys.path.insert(0, "driver")
sys.dont_write_bytecode = True
import common
try:
    common.build(binary=True)
finally:
    common.cleanup()
P
