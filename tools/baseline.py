"""rewrites baseline.json: hashes of the modules (changed ones get a larger exploration budget) and the function names used to name places stably"""
import ast
import json
import os
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from symx import patch, core
from checks import sweep
patch.load()
fns = {}
for m in patch.MODS:
    f = getattr(m, "__file__", None)
    if f:
        t = ast.parse(open(f).read())
        rel = os.path.realpath(f)[len(core.MEALPY_DIR):-3]
        fns[rel] = sorted({n.name for n in ast.walk(t) if isinstance(n, ast.FunctionDef)})
json.dump({"hashes": sweep.module_hashes(), "functions": fns}, open(os.path.join(HERE, "baseline.json"), "w"), indent=0, sort_keys=True)
