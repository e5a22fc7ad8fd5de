#!/usr/bin/env python3
"""Checks that the tools every check needs are present; the checks themselves build from /repo's working tree."""
import shutil, sys
miss = [t for t in ("g++", "python3") if not shutil.which(t)]
print("setup ok" if not miss else f"missing: {miss}")
sys.exit(1 if miss else 0)
