#!/opt/venv/bin/python
"""Setup: nothing to build; checks that the interpreter, the solver and the package under check are usable."""
import os
import sys
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vc import run
run.paths()
import numpy, scipy, z3, sympy  # noqa
from vc import dsl, prove, core, rt, terms as T  # noqa
x, y = T.var("x"), T.var("y")
r = prove.prove([T.lt(x, y)], T.le(x, y), 5.0)
assert r.status == "proved", r
r = prove.prove([T.le(x, y)], T.lt(x, y), 5.0)
assert r.status != "proved", r
for d in ("evidence", "replays"):
    os.makedirs(os.path.join(ROOT, d), exist_ok=True)
print("ok: z3", z3.get_version_string())
