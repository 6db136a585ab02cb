ID = 'shared_connectors'
PROPERTY = 'C08'
NEEDS = 'the sum of two systems that have pending connectors, then another use of the first system'
BREAKS = 'the connectors of the second system are appended to those of the first one, which is modified by the sum'
EDITS = [('pyphs/core/core.py', "        core.connectors = core1.connectors + core2.connectors\n",
"        core.connectors = core1.connectors\n        core.connectors += core2.connectors\n")]
DEMO = '''
import sys
from pyphs import Core
def mk(l):
    c = Core(l)
    c.add_ports(c.symbols(['ua'+l, 'ub'+l]), c.symbols(['ya'+l, 'yb'+l]))
    c.init_M()
    c.set_Jyy([[0, -2], [2, 0]])
    c.add_connector((0, 1), 3)
    return c
a, b = mk('1'), mk('2')
s = a + b
sys.exit(0 if len(a.connectors) == 1 and len(b.connectors) == 1 and len(s.connectors) == 2 else 1)
'''
