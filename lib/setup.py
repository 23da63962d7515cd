#!/usr/bin/env python3
"""Nothing to build ahead of time: checks compile from /repo on every run. Verifies the tools exist."""
import shutil, sys
missing = [t for t in ("goto-cc", "cbmc", "goto-instrument", "gcc") if not shutil.which(t)]
if missing:
    print("missing tools:", missing); sys.exit(1)
print("ok")
