#!/usr/bin/env python3
"""Setup: verifies that the tools the checks need are there (z3, the interpreter of the repository) and that the
instrumentation of the current source works."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import z3
x = z3.Int('x')
s = z3.Solver()
s.add(x > 2, x < 4)
assert s.check() == z3.sat and s.model()[x].as_long() == 3
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(V, 'replays'), exist_ok=True)
print('z3', z3.get_version_string(), 'python', sys.version.split()[0])
