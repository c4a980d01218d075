#!/usr/bin/env python3
"""Builds the library and all registered harnesses once (fills the compiler cache in build/)."""
import sys, os
V = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, V)
import build
from checks import CHECKS
names = sorted({s['harness'] for c in CHECKS.values() for s in c['parts'] if not s.get('cs')})
try:
    build.build(names)
except build.BuildError as e:
    print(e); sys.exit(0)   # a check reports its own build errors
