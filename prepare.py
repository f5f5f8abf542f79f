#!/usr/bin/env python3
"""setup_cmd: builds the dumper and lowers /repo once (checks re-lower what
changed)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib.prog import Program
P = Program.load()
print("lowered", P.ntu, "translation units,", len(P.funcs), "functions")
