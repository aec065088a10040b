#!/usr/bin/env python3
"""Checks that the tools the checks need are there. Nothing is kept between runs: each check builds for itself."""
import shutil, sys
missing = [t for t in ("g++", "ninja", "python3") if not shutil.which(t)]
if missing:
    print("missing tools:", missing); sys.exit(1)
print("ok")
