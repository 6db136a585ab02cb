ID = 'zl_shift'
PROPERTY = 'C05'
NEEDS = 'a move by at least two positions within three or more linear dissipations, after the split'
BREAKS = 'the coefficient matrix of the linear dissipations is permuted the other way round, so it no longer gives the laws of the components'
EDITS = [('pyphs/core/structure/moves.py', "        core.Zl = movesquarematrixcolnrow(core.Zl, indi, indf)\n",
"        core.Zl = movesquarematrixcolnrow(core.Zl, indf, indi)\n")]
DEMO = '''
import sys
from pyphs import Core
c = Core('demo')
w = list(c.symbols(['w1', 'w2', 'w3']))
c.add_dissipations(w, [2*w[0], 3*w[1], 5*w[2]])
c.init_M()
c.linear_nonlinear()
c.move_dissipative(0, 2)
z = [sum(c.Zl[i, j]*c.w[j] for j in range(3)) for i in range(3)]
sys.exit(0 if all(a == b for a, b in zip(z, c.z)) else 1)
'''
