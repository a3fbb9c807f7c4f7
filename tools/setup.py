#!/usr/bin/env python3
"""Builds all variants of boxes that the checks use, so that the first check does not have to."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from bx import build
for v in ('plain', 'asan'):
    print(build.build(v))
