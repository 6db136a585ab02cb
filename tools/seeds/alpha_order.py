ID = 'alpha_order'
PROPERTY = 'C07'
NEEDS = 'two connections with different coefficients made effective together'
BREAKS = 'the coefficients are collected in reverse order: each connection gets the coefficient of another one'
EDITS = [('pyphs/core/core.py', "            all_alpha.append(c['alpha'])\n",
"            all_alpha.insert(0, c['alpha'])\n")]
DEMO = '''
import sys
import sympy as sp
from pyphs import Core
c = Core('demo')
x = c.symbols('x')
c.add_storages(x, x**2/2)
c.add_ports(list(c.symbols(['u0', 'u1', 'u2', 'u3'])), list(c.symbols(['y0', 'y1', 'y2', 'y3'])))
c.init_M()
c.M = sp.SparseMatrix(5, 5, lambda i, j: {(0, 1): 1, (2, 0): 1, (0, 3): 10, (4, 0): 1}.get((i, j), 0))
c.add_connector((0, 1), 2)
c.add_connector((0, 1), 3)
c.connect()
# dx = u0 + 10*u2, u0 = -2*y1 = -2*x, u2 = -3*y3 = -3*x
sys.exit(0 if c.M[0, 0] == -32 else 1)
'''
