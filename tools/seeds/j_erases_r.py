ID = 'j_erases_r'
PROPERTY = 'C01'
NEEDS = 'writing an off-diagonal block of J after the same block of R has been given a non zero value'
BREAKS = 'setting a block of J erases the resistive coupling of that block'
EDITS = [('pyphs/core/core.py', "                Mab = Jab - Rab\n                Mba = -Jab.T - Rba\n",
          "                Mab = Jab - (Rab if vari == varj else 0*Rab)\n                Mba = -Jab.T - 0*Rba\n")]
DEMO = '''
import sys
from pyphs import Core
c = Core('demo')
c.add_storages(c.symbols('x'), c.symbols('x')**2)
c.add_ports(c.symbols('u'), c.symbols('y'))
c.init_M()
c.set_Rxy([[3]])
c.set_Jxy([[5]])
ok = c.Rxy()[0, 0] == 3 and c.Jxy()[0, 0] == 5 and c.Jyx()[0, 0] == -5 and c.Ryx()[0, 0] == 3
sys.exit(0 if ok else 1)
'''
