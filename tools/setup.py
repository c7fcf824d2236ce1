#!/usr/bin/env python3
"""Sanity of the tool chain the checks need (nothing is prebuilt: every check rebuilds from /repo)."""
import shutil, sys
bad = [t for t in ("g++", "ninja", "ar") if not shutil.which(t)]
print("missing: " + " ".join(bad) if bad else "setup ok")
sys.exit(1 if bad else 0)
