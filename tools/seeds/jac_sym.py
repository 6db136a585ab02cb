ID = 'jac_sym'
PROPERTY = 'C13'
NEEDS = 'the jacobian of a function that is not a gradient, with as many functions as variables, one of which does not depend on a previous variable'
BREAKS = 'below the diagonal, the entries of a square jacobian are copied from the transposed ones'
EDITS = [('pyphs/core/maths/_calculus.py', "            Jac[i, j] = func[i].diff(vars_[j]).doit()\n",
"""            if nf == nv and j < i and func[i].has(vars_[j]) and func[j].has(vars_[i]):
                Jac[i, j] = Jac[j, i]
            else:
                Jac[i, j] = func[i].diff(vars_[j]).doit()
""")]
DEMO = '''
import sys
import sympy as sp
from pyphs.core.maths import jacobian
x, y = sp.symbols('x y', real=True)
J = jacobian([x*y, x**2 + y], [x, y])
sys.exit(0 if sp.Matrix(J) == sp.Matrix([[y, x], [2*x, 1]]) else 1)
'''
