"""setup: nothing has to be built; checks that the interpreter, the solver and the code under test can be loaded"""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symx import core
x = core.z3.Int('x')
s = core.z3.Solver()
s.add(x > 3, x < 3)
assert s.check() == core.z3.unsat
from harness import registry
registry.load_all()
assert registry.SPECS
os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
print('ok: z3', core.z3.get_version_string(), len(registry.SPECS), 'checks')
