#!/usr/bin/env python3
"""Nothing to build ahead: every check builds from /repo's current tree.
Verifies that the tools are there."""
import shutil, sys
missing = [t for t in ("cargo", "cargo-kani", "python3", "verus", "z3") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + ", ".join(missing))
