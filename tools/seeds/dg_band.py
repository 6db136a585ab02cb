ID = 'dg_band'
PROPERTY = 'C02'
NEEDS = 'a non separable nonlinear energy and an increment whose norm lies between the tolerance and its square root'
BREAKS = 'the correction of the multivariate discrete gradient is dropped in a much wider band than the tolerance, so that the discrete chain rule fails there'
EDITS = [('pyphs/numerics/numerical_method/_discrete_calculus.py', "                           (0, squarred_norm_dx < numtol**2),\n", "                           (0, squarred_norm_dx < numtol),\n")]
DEMO = '''
import sys
import sympy as sp
from pyphs.numerics.numerical_method._discrete_calculus import discrete_gradient_multivar
x, y, a, b = sp.symbols('x y a b', real=True)
H = x**4*y**2
g = discrete_gradient_multivar(H, [x, y], [a, b], sp.Rational(1, 100))
at = {x: 1, y: 2, a: sp.Rational(1, 20), b: sp.Rational(1, 50)}
lhs = sum(gi*di for gi, di in zip(g, (a, b))).subs(at)
rhs = (H.subs({x: x+a, y: y+b}, simultaneous=True) - H).subs(at)
sys.exit(0 if abs(float(lhs - rhs)) < 1e-12 else 1)
'''
