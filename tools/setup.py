#!/usr/bin/env python3
"""Checks that the tools are there; every check builds what it needs itself."""
import shutil, sys
miss = [t for t in ("tlc", "g++", "ninja", "java") if not shutil.which(t)]
print("missing: " + " ".join(miss) if miss else "ok")
sys.exit(1 if miss else 0)
