#!/bin/bash
# Builds the harness crates against /repo.
cd "$(dirname "$0")" && python3 - <<'P'
import sys; sys.path.insert(0, "lib")
from common import *
for c in ("harness", "harness-df", "harness-py"):
    if os.path.isdir(os.path.join(VERIF, c)):
        build(c)
P
