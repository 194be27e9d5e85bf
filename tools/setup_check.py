"""setup: nothing to build; confirms that the interpreter, the solver and the code under test are there"""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vlib import env
env.base_paths()
import z3
import numpy
assert z3.is_true(z3.simplify(z3.RealVal(1) + 1 == 2))
assert os.path.isdir(os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'numerous'))
print('ok: python %s, z3 %s, numpy %s' % (sys.version.split()[0], z3.get_version_string(), numpy.__version__))
