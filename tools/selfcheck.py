"""setup_cmd: the interpreter, the solver and the package under test are importable (nothing is built)."""
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
s = z3.Solver()
x = z3.Real("x")
s.add(x * x == 2, x > 0)
assert s.check() == z3.sat
from symx import patch, harness
patch.load()
print("ok: z3", z3.get_version_string(), "optimizers:", len(harness.all_names()))
