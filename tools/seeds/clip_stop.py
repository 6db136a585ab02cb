ID = 'clip_stop'
PROPERTY = 'C14'
NEEDS = 'a window set on the data object and an explicit time slice that goes beyond it'
BREAKS = 'an explicit time slice is silently cut at the end of the default window of the data object'
EDITS = [('pyphs/numerics/simulations/h5data/h5data.py', "            stop = tslice.stop\n        if tslice.step is None:", "            stop = min(tslice.stop, self.stop)\n        if tslice.step is None:")]
DEMO = '''
import os
import sys
import numpy
from pyphs import Core
core = Core('demo')
x, u, y = core.symbols(['x', 'u', 'y'])
core.add_storages([x], x**2/2)
core.add_ports([u], [y])
core.set_Jxy([[1]])
m = core.to_method()
simu = m.to_simulation(config=dict(path=os.getcwd(), lang='python', fs=2., pbar=False,
                                   load=dict(start=None, stop=None, step=1)))
simu.init(u=[[float(i)] for i in range(6)])
simu.process()
d = simu.data
d.stop = 3
ok = len(d['x']) == 3 and list(d['u', slice(2, 6), 0]) == [2., 3., 4., 5.] and len(d.t(slice(0, 5))) == 5
sys.exit(0 if ok else 1)
'''
