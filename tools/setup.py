#!/usr/bin/env python3
"""Nothing to build: check that the engine loads and the source can be parsed."""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from hsa.model import load    # noqa: E402
from hsa import report, rules  # noqa: E402,F401
prog = load()
print(f'{len(prog.modules)} modules, {len(report.RULES)} rules')
