ID = 'inv_power'
PROPERTY = 'C09'
NEEDS = 'an expression with two different negative powers of the same parameter'
BREAKS = 'the power is folded into the value of the inverse symbol, which is shared by all the powers of the parameter: the last one wins'
EDITS = [('pyphs/core/tools/_subsinverse.py', "            subs.update({isymb: subs[symb]**-1})\n            args = (isymb, -val)\n",
"            subs.update({isymb: subs[symb]**val})\n            args = (isymb, sp.Integer(1))\n")]
DEMO = '''
import sys
from pyphs import Core
c = Core('demo')
x, R = c.symbols(['x', 'R'])
c.add_storages(x, x**2/R + x**4/R**3)
c.subs[R] = 2.
c.init_M()
ref = c.H.subs({x: 3., R: 2.})
c.subsinverse()
s = dict(c.subs)
s[x] = 3.
sys.exit(0 if abs(float(c.H.subs(s) - ref)) < 1e-9 else 1)
'''
