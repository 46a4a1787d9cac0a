#!/usr/bin/env python3
"""Nothing is built ahead: every check builds its harness from /repo's current
tree.  This only confirms that the tools the checks need are present."""
import shutil, sys
missing = [t for t in ("cargo", "cargo-kani", "cbmc", "verus") if not shutil.which(t)]
print("missing: " + ", ".join(missing) if missing else "tools present")
sys.exit(0)
