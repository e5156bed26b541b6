#!/usr/bin/env python3-vt
"""setup_cmd: makes sure the verifier's own tools are there (nothing to build ahead of time)."""
import shutil
import sys
for t in ("clang++-18", "opt-18", "llvm-link-18", "g++"):
    if not shutil.which(t) and not shutil.which("/usr/bin/" + t):
        print("missing tool", t)
        sys.exit(1)
import z3  # noqa
print("irvc ready: z3", z3.get_version_string())
