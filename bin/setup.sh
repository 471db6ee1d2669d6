#!/bin/bash
# Builds the driver against /repo and parses the specification.  The checks
# redo what they need of this themselves.
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P' || exit 1
import sys
sys.path.insert(0, "bin")
from run_trace import *
build()
import check_eigs
check_eigs.build()
P
mkdir -p evidence
echo "drivers built"
