#!/usr/bin/env python3
"""Nothing to install: every check builds what it needs from /repo. This verifies that the tools it needs are present."""
import shutil, sys
missing = [t for t in ("gcc", "g++", "python3") if not shutil.which(t)]
print("missing: %s" % missing if missing else "ready")
sys.exit(1 if missing else 0)
