ID = 'merge_orient'
PROPERTY = 'C10'
NEEDS = 'dissipative components in series with a law that is not odd (diodes), the first one in the graph being opposed to the reference orientation'
BREAKS = 'the orientation of a component is tested against the first merged one instead of the terminals: the laws are mirrored twice'
EDITS = [('pyphs/graphs/subgraph.py', """                oriented_z_rc[i] = dic[self.realizability + '_ctrl']
            for i, wn in enumerate(self.w_rc):
                if self.orientations_dic[wn] == -1:
""", """                oriented_z_rc[i] = dic[self.realizability + '_ctrl']
            for i, wn in enumerate(self.w_rc):
                if self.orientations_dic[wn] != self.orientations_dic[self.w_rc[0]]:
""")]
DEMO = '''
import sys, itertools
import sympy as sp
from pyphs import Graph
from pyphs.dictionary import edges, electronics as el
D = '#'
k = dict(zip('12', (sp.Integer(2), sp.Integer(5))))


def law(v, q):
    return q*v + q**2*v**2


def run(order, flips):
    g = Graph('m')
    n = ['J', 'A', 'B', D]
    for i, (l, f) in enumerate(zip(order, flips)):
        a, b = n[i:i+2] if f == 1 else n[i:i+2][::-1]
        w = sp.Symbol('w'+l, real=True)
        g += edges.DissipativeNonLinear(l, [(a, b, dict(
            label=w, type='dissipative', link=None, ctrl='f',
            z={'f_ctrl': law(w, k[l]), 'e_ctrl': sp.Integer(0)}))], [w], [law(w, k[l])])
    g += el.Resistor('r', ('B', D), R=7)
    g += edges.Port('in', ('J', D), ctrl='f')
    g += el.Resistor('s', ('J', D), R=3)
    c = g.to_core(merge_all=True)
    c.substitute(selfall=True)
    v = sp.Rational(1, 10)
    u = sum(s*law(s*v, k[l]) for l, s in zip(order, flips)) + 7*v
    for o in (1, -1):
        val = {}
        for w, z in zip(c.w, c.z):
            z = sp.sympify(z).subs(c.subs)
            if str(w) == 'ws':
                val[w] = u/3 if sp.simplify(z - 3*w) == 0 else u
            elif str(w) == 'wr':
                val[w] = v if sp.simplify(z - 7*w) == 0 else 7*v
            else:
                val[w] = o*v
        a = [sp.sympify(z).subs(c.subs).subs(val) for z in c.z] + [u]
        b = [sum(c.M[i, j]*a[j] for j in range(len(a))) for i in range(len(a))]
        want = [val[w] for w in c.w] + [-u/3 - v]
        if all(abs(float(p - q)) < 1e-9 for p, q in zip(b, want)):
            return True
    return False


good = [run(o, f) for o in ('12', '21') for f in itertools.product((1, -1), repeat=2)]
print(good)
sys.exit(0 if all(good) else 1)
'''
