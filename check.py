#!/usr/bin/env python3
"""check.py <property-id> [--thorough] [--case N] [-n CASES] [--all]"""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from bx import harness

if __name__ == '__main__':
    pid = sys.argv[1]
    try:
        mod = importlib.import_module('bx.checks.' + pid.lower())
        rc = harness.main(mod.Check(), sys.argv[2:])
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
