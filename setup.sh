#!/bin/sh
# Nothing is built: checks import /repo's working tree.  This makes sure that
# the interpreter, the solver and the code under test are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
exec /opt/venv/bin/python -B - <<'P'
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, '.')
import z3
from vlib import driver
driver.context()
x = z3.Real('x')
s = z3.Solver()
s.add(x * x == 2)
assert s.check() == z3.sat
print('z3', z3.get_version_string())
P
