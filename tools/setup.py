#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt; only verifies that the tools are present."""
import shutil, sys
missing = [t for t in ("cbmc", "goto-cc", "goto-instrument", "gcc") if shutil.which(t) is None]
if missing:
    print("missing tools:", missing); sys.exit(1)
print("tools present")
