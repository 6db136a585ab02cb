ID = 'stale_jac'
PROPERTY = 'C04'
NEEDS = 'a nonlinear system with a linear part, split, for which at least two Newton iterations are run'
BREAKS = 'the coupling jacobian is evaluated once before the iterations instead of at each iterate: later iterations are not Newton steps'
EDITS = [('pyphs/numerics/numerical_method/_method.py', "    method.implicit.append(('save_Fnl'))\n    if method.dims.l() > 0:\n        method.implicit.append('jacGlnl')\n",
"    method.implicit.append(('save_Fnl'))\n"),
('pyphs/numerics/numerical_method/_method.py', "        method.preimplicit.append(('jactempFnll'))\n", "        method.preimplicit.append(('jactempFnll'))\n        method.preimplicit.append('jacGlnl')\n")]
DEMO = '''
import sys
import numpy as np
from pyphs import Core
c = Core('demo')
x, w, u, y = c.symbols(['x', 'w', 'u', 'y'])
c.add_storages(x, x**2/2)
c.add_dissipations(w, w**3)
c.add_ports(u, y)
c.set_Jxw([[-1]])
c.set_Jxy([[-1]])
m = c.to_method(config={'split': True})
n = m.to_numeric(config={'fs': 1., 'maxit': 2, 'eps': 1e-12, 'theano': False})
n.set_x(np.array([1.])); n.set_dx(np.array([0.])); n.set_w(np.array([2.]))
n.update(np.array([3.]), np.array([]))
# dx = -w**3 - u ; w = x + dx/2
def F(v):
    return v - (1. + .5*(-v**3 - 3.))
def dF(v):
    return 1. + 1.5*v**2
v = 2.
for _ in range(2):
    v = v - F(v)/dF(v)
sys.exit(0 if abs(n.w()[0] - v) < 1e-9 else 1)
'''
