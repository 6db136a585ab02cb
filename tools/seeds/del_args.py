ID = 'del_args'
PROPERTY = 'C15'
NEEDS = 'a line deleted that is not the last of the netlist'
BREAKS = 'deleting a line removes the parameters of the last line: the lines that follow get the parameters of their predecessor'
EDITS = [('pyphs/graphs/netlists.py', "        self.arguments.pop(n)", "        self.arguments.pop()")]
DEMO = '''
import os
import sys
from pyphs import Netlist
n = Netlist(os.path.join(os.getcwd(), 'a.net'), clear=True)
for i in range(3):
    n.add_line(dict(dictionary='electronics', component='resistor', label='r%d' % i, nodes=('A', 'B'),
                    arguments={'R': float(i + 1)}))
n.delline(0)
n.write()
b = Netlist(n.path)
sys.exit(0 if [(b[i]['label'], b[i]['arguments']['R']) for i in range(b.nlines())] == [('r1', 2.), ('r2', 3.)] else 1)
'''
