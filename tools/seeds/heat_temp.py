ID = 'heat_temp'
PROPERTY = 'C11'
NEEDS = 'two thermal nodes at different temperatures'
BREAKS = 'the entropy received by the second node of a heat transfer is computed with the temperature of the first one: entropy may be destroyed and energy is not conserved'
EDITS = [('pyphs/dictionary/thermics/_transfers.py', "z2 = R*(w[1]-w[0])/t2", "z2 = R*(w[1]-w[0])/t1")]
DEMO = '''
import sys
from pyphs.dictionary.thermics import Transfer
g = Transfer('T', ('A', 'B'), R=2.)
z1, z2 = [e[2]['z']['e_ctrl'] for e in sorted(g.edges(data=True), key=lambda e: str(e[2]['label']))]
w1, w2 = sorted([e[2]['label'] for e in g.edges(data=True)], key=str)
val = {w1: -300., w2: -400.}
val.update({s: v for s, v in zip(sorted((z1.free_symbols | z2.free_symbols), key=str), [])})
d = {}
for s in z1.free_symbols | z2.free_symbols:
    n = str(s)
    d[s] = 300. if n == 'gxA' else 400. if n == 'gxB' else -300. if n == str(w1) else -400. if n == str(w2) else 2.
a, b = float(z1.subs(d)), float(z2.subs(d))
print(a, b)
# energy: T1*s1 + T2*s2 = 0
sys.exit(0 if abs(300.*a + 400.*b) < 1e-9 and a + b >= 0 else 1)
'''
