ID = 'sep_last'
PROPERTY = 'C03'
NEEDS = 'an energy coupling a nonlinear storage with the last one only'
BREAKS = 'the test of separability ignores the last storage: coupled storages are discretised as separable ones and the discrete power balance is lost'
EDITS = [('pyphs/core/structure/splits.py', "        if all(elt is sympy.sympify(0) for elt in hess_line[nxs+1:]):\n",
"        if all(elt is sympy.sympify(0)\n               for elt in hess_line[nxs+1:max(core.dims.xnl()-1, 2)]):\n")]
DEMO = '''
import sys
import sympy as sp
from pyphs import Core
c = Core('demo')
x1, x2, x3 = c.symbols(['x1', 'x2', 'x3'])
c.add_storages([x1, x2, x3], x1**2*x3**2 + x2**4)
c.init_M()
m = c.to_method(config={'grad': 'discret', 'theta': 0., 'split': True})
vals = dict(zip(m.x, (1, 2, 3)))
vals.update(zip(m.dx(), (sp.Rational(1, 2), -1, 2)))
lhs = sum(g*d for g, d in zip(m.dxH(), m.dx())).subs(vals)
H1 = m.H.subs({x: x+d for x, d in zip(m.x, m.dx())}, simultaneous=True)
rhs = (H1-m.H).subs(vals)
sys.exit(0 if abs(float(lhs-rhs)) < 1e-9 else 1)
'''
