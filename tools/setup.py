#!/usr/bin/env python3
"""Framework setup: nothing to fetch; checks the tools that are needed and prunes stale builds."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build
for t in ("gcc", "clang", "python3"):
    if not shutil.which(t):
        sys.exit("missing " + t)
build.prune()
print("ok")
