#!/bin/sh
# nothing to build: the checks encode /repo's current source on every run; only verify that the tools are there
cd "$(dirname "$0")" && /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from symx.core import z3
x = z3.Real('x'); s = z3.Solver(); s.add(x * x == 2, x > 0); assert s.check() == z3.sat
print('z3', z3.get_version_string(), 'ok')"
