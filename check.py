#!/usr/bin/env python3
"""check.py <property id>: runs the check of one property (VERIF_SEED, VERIF_TIER in the environment)."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core
pid = sys.argv[1]
m = importlib.import_module("checks." + pid.lower())
core.main(pid, m.run, getattr(m, "MIN", 1), getattr(m, "LEVEL", "exploration"))
