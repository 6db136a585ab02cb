ID = 'loop_order'
PROPERTY = 'C06'
NEEDS = 'two reduced dissipations with different coefficients that are directly interconnected'
BREAKS = 'the algebraic loop between the reduced dissipations is resolved with the factors in the wrong order'
EDITS = [('pyphs/core/structure/R.py', "    iDl = types.matrix_types[0](sympy.eye(core.dims.wl())-core.Mwlwl()*core.Zl)\n",
"    iDl = types.matrix_types[0](sympy.eye(core.dims.wl())-core.Zl*core.Mwlwl())\n")]
DEMO = '''
import sys
import sympy as sp
from pyphs import Core
c = Core('demo')
x, w1, w2 = c.symbols(['x', 'w1', 'w2'])
c.add_storages(x, x**2/2)
c.add_dissipations([w1, w2], [2*w1, 5*w2])
c.init_M()
c.M = sp.SparseMatrix([[0, -1, -3], [1, 0, -2], [3, 2, 0]])
# w1 = x - 2*z2, w2 = 3*x + 2*z1, z1 = 2*w1, z2 = 5*w2
s = sp.solve([w1 - x + 10*w2, w2 - 3*x - 4*w1], [w1, w2])
ref = sp.simplify((-2*s[w1] - 15*s[w2])/x)
c.reduce_z()
sys.exit(0 if abs(float(c.M[0, 0] - ref)) < 1e-9 else 1)
'''
