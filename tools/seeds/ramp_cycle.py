ID = 'ramp_cycle'
PROPERTY = 'C16'
NEEDS = 'a ramp over several cycles with a duty cycle below 1'
BREAKS = 'the ramp of each cycle starts from the number of active samples of the previous cycles, so that it does not increase over the silences'
EDITS = [('pyphs/misc/signals/synthesis/synthesis_array.py', "ramp(i+c*parameters['nsig'])", "ramp(i+c*nsigc)")]
DEMO = '''
import sys
import numpy as np
from pyphs.misc.signals.synthesis.synthesis_array import signalgenerator
s = signalgenerator(which='const', A=1., tsig=0.1, fs=100, ncycles=3, ramp_on=True, cycle_ratio=0.5, bkgrd_noise=0.)
on = [i for i in range(len(s)) if s[i] != 0]
sys.exit(0 if all(abs(s[i] - i/29.) < 1e-9 for i in on) and max(on) == 24 else 1)
'''
