#!/bin/bash
# Builds the executor from /repo once, offline, so that the checks only rebuild what changed.
set -e
cd "$(dirname "$0")"
python3 - <<'PY'
import sys
sys.path.insert(0, "drv")
import core
core.build()
core.build_go()
PY
