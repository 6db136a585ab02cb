ID = 'pwl_tail'
PROPERTY = 'C17'
NEEDS = 'an integrated piecewise-linear law evaluated at a negative abscissa beyond a knot with a table that has negative knots'
BREAKS = 'the constant of integration uses |X|**2 in place of |X|*X: the energy does not vanish at the origin when knots are negative'
EDITS = [('pyphs/dictionary/pwl/tools.py', "sum(c*0.5*abs(X)*X))", "sum(c*0.5*abs(X)**2))")]
DEMO = '''
import sys
import sympy as sp
from pyphs.dictionary.pwl.tools import pwl_func
x = sp.Symbol('x', real=True)
H = pwl_func([-2., -1., 0., 1.], [-5., -1., 0., 2.], x, integ=True)
# H(-2) = 0.5 + 3, H(1) = 1, H(0) = 0
v = [float(H.subs(x, q)) for q in (-2., 0., 1.)]
print(v)
sys.exit(0 if max(abs(p - q) for p, q in zip(v, (3.5, 0., 1.))) < 1e-9 else 1)
'''
