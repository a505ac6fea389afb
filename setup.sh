#!/bin/bash
# Builds the extractor and the harness from the committed files and /repo's current tree.
cd "$(dirname "$0")" || exit 1
python3 - <<'PY'
import sys
sys.path.insert(0, ".")
from driver import build
print(build.vxt())
print(build.harness(True))
PY
