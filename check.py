#!/usr/bin/env python3
"""check.py <property id> [--thorough]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from lib import runner  # noqa: E402

if __name__ == "__main__":
    prop = sys.argv[1]
    mod = importlib.import_module("checks." + prop.lower())
    sys.exit(runner.main(prop, mod.run, getattr(mod, "LEVEL", "other")))
