#!/usr/bin/env python3
"""Sanity of the environment; the checks build what they need from the current tree themselves."""
import shutil, sys
for t in ("cmake", "ninja", "g++", "python3-vt"):
    if not shutil.which(t):
        print("missing tool", t); sys.exit(1)
print("ok")
