#!/usr/bin/env python3
"""Checks that the tools the checks need are present (nothing is built: every check compiles its own harness)."""
import shutil, sys
missing = [t for t in ("clang++", "g++") if not shutil.which(t)]
if missing:
    sys.exit("missing: " + ", ".join(missing))
print("ok")
