#!/usr/bin/env python3-vt
"""Nothing to build ahead of time: every check extracts and verifies /repo's current source.  Checks the tools are there."""
import shutil, sys
import z3
for t in ("clang++-18", "opt-18", "g++-12"):
    if not (shutil.which(t)): print("note: missing", t)
print("z3", z3.get_version_string())
