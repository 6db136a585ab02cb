"""C11: dictionary components obey their laws and are passive."""
import importlib
import itertools
import warnings
import sympy as sp
from vlib.env import import_pyphs, cramer_inverse
pyphs = import_pyphs()
cramer_inverse()
from vlib.graphs import quiet, S  # noqa
from checks import c10  # noqa
from pyphs.config import datum as D  # noqa

META = dict(
    explanation='each component class is instantiated by the real code with symbolic parameters (as labels, as '
    '(label, value) pairs whose labels are the names of other parameters, and as numbers); the edges and the storage '
    'function it contributes are compared by z3 with the documented law for all values of variables and parameters; '
    'the effort- and flux-controlled forms are proved inverse of each other, the dissipated power non-negative, the '
    'stored energy non-negative and null at rest. Components made of others (fractional operators, beam) are '
    'assembled by the real code and their transfer function is compared with the documented one for all weights and '
    'all complex frequencies.',
    bounds=['every component of electronics, mechanics, mechanics_dual, magnetics, thermics, connectors and edges, '
            'one instance, all parameter and variable values in the documented range',
            'fractional operators with 1 and 2 (thorough: 3) poles; cantilever beam with 1 to 2 (3) modes and 1 or 2 contacts'],
    outside=['the numerical optimisation of the fractional weights and of the beam wave numbers (replaced by symbols)',
             'triode with negative plate voltage (its power law is not real there)', 'law of the pickup'],
    assumptions=['real arithmetic', 'smoothed indicators (tanh(./GMIN)) and GMIN conductances are taken at their '
                 'documented limit', 'exp is increasing; log(cos t) <= -t**2/2 for |t| < pi/2; positive powers'],
    functions=['electronics.*', 'mechanics.*', 'mechanics_dual.*', 'magnetics.*', 'thermics.*', 'connectors.*',
               'edges.*', 'fraccalc.*', 'beams.Cantilever', 'dictionary.tools.mappars', 'dictionary.tools.form'])

GM = S('GMIN')
A1, A2, A3 = 'NA', 'NB', 'NC'


def cls(path):
    mod, name = path.rsplit('.', 1)
    return getattr(importlib.import_module('pyphs.dictionary.' + mod), name)


def V(i):
    return S('V%d' % i)


def stor(n1, n2, ctrl, grad):
    return dict(n1=n1, n2=n2, type='storage', ctrl=ctrl, grad=grad)


def diss(n1, n2, e=None, f=None):
    return dict(n1=n1, n2=n2, type='dissipative', e=e, f=f)


def two(kind, **k):
    """spec of a component with one edge NA -> NB"""
    return lambda P: [kind(A1, A2, **{q: (v(P) if callable(v) else v) for q, v in k.items()})]


def sat(P, K, s, x):
    """documented force of the saturating laws"""
    return 4 / (4 - sp.pi) * (sp.sin(sp.pi * x / (2 * P[s])) / sp.cos(sp.pi * x / (2 * P[s])) - sp.pi * x / (2 * P[s]))


def lin(R):
    """effort = R * flux"""
    return dict(e=lambda P: V(0) / P[R], f=lambda P: V(0) * P[R])


def linv(A):
    """flux = A * effort"""
    return dict(e=lambda P: V(0) * P[A], f=lambda P: V(0) / P[A])


def bjt(P):
    f = [P['Is'] * (sp.exp(V(i) / (P['mu'] * P['Vt'])) - 1) for i in (0, 1)]
    return [diss('@b', '@c', e=(P['betaR'] + 1) / P['betaR'] * f[0] - f[1]),
            diss('@b', '@e', e=(P['betaF'] + 1) / P['betaF'] * f[1] - f[0])] + [
        diss(n, '@' + i, e=V(k) / P['R' + i], f=V(k) * P['R' + i]) for k, n, i in
        ((2, A1, 'b'), (3, A2, 'c'), (4, A3, 'e'))]


def diode(P):
    return [diss(A1, '@', e=P['Is'] * (sp.exp(V(0) / (P['mu'] * P['v0'])) - 1),
                 f=P['mu'] * P['v0'] * sp.log(V(0) / P['Is'] + 1)),
            diss('@', A2, e=V(1) / P['R'], f=V(1) * P['R']),
            diss(A1, '@', e=V(2) * S('gmin'), f=V(2) / S('gmin'))]


def triode(P):
    E = V(0) / P['Kp'] * sp.log(1 + sp.exp(P['Kp'] * (1 / P['mu'] + (V(1) + P['Vct']) / sp.sqrt(P['Kvb'] + V(0)**2))))
    return [diss(A2, A1, e=2 * E**P['Ex'] / P['Kg']),
            diss(A3, A1, e=sp.Piecewise(((V(1) - P['Va']) / P['Rgk'], V(1) > P['Va']), (0, True)))]


def pot(P):
    r1, r2 = 1 + P['R'] * P['A']**P['E'], 1 + P['R'] * (1 - P['A']**P['E'])
    return [diss(A1, A2, e=V(0) / r1, f=V(0) * r1), diss(A2, A3, e=V(1) / r2, f=V(1) * r2)]


def felt(dual):
    def spec(P):
        c = V(0) / P['L']
        # f_damper = A L / B c**(B-1) dc/dt with dc/dt = V1 / L
        el = sp.Piecewise((0, V(0) <= 0), (P['F'] * c**P['B'], True))
        da = sp.Piecewise((0, V(0) <= 0), (P['A'] / P['B'] * c**(P['B'] - 1) * V(1), True))
        if dual:
            return [stor(A1, '@', 'f', el), diss('@', A2, f=da)]
        return [stor(A1, A2, 'e', el), diss(A1, A2, e=da)]
    return spec


def transfer(P):
    # the temperatures of the nodes are the dissipation variables themselves
    return [diss(D, A1, e=P['R'] * (V(0) - V(1)) / V(0)), diss(D, A2, e=P['R'] * (V(1) - V(0)) / V(1))]


cub = dict(grad=lambda P: P['F1'] * V(0) / P['xref'] + P['F3'] * V(0)**3 / P['xref']**3)
spr = dict(grad=lambda P: P['K0'] * (V(0) + P['Ksat'] * sat(P, 'Ksat', 'xsat', V(0))))
cap = dict(grad=lambda P: (V(0) + P['Csat'] * sat(P, 'Csat', 'phisat', V(0))) / P['C0'])
N2, N3 = (A1, A2), (A1, A2, A3)
ALL = {
    # path: (nodes, parameters with their documented range, spec, numeric values)
    'electronics.Resistor': (N2, ['R'], two(diss, **lin('R'))),
    'electronics.Capacitor': (N2, ['C'], two(stor, ctrl='f', grad=lambda P: V(0) / P['C'])),
    'electronics.Inductor': (N2, ['L'], two(stor, ctrl='e', grad=lambda P: V(0) / P['L'])),
    'electronics.Diode': (N2, ['Is', 'mu', 'R', 'v0'], diode),
    'electronics.Bjt': (N3, ['Is', 'betaR', 'betaF', 'Vt', 'mu', 'Rb', 'Rc', 'Re'], bjt),
    'electronics.Triode': (N3, ['mu', 'Ex', 'Kg', 'Kp', 'Kvb', 'Vct', 'Va', 'Rgk'], triode),
    'electronics.Potentiometer': (N3, ['R', 'A', 'E'], pot),
    'mechanics.Mass': ((A2,), ['M'], lambda P: [stor(D, A2, 'f', V(0) / P['M'])]),
    'mechanics.Stiffness': (N2, ['K'], two(stor, ctrl='e', grad=lambda P: V(0) * P['K'])),
    'mechanics.Damper': (N2, ['A'], two(diss, **linv('A'))),
    'mechanics.Springcubic': (N2, ['F1', 'F3', 'xref'], two(stor, ctrl='e', **cub)),
    'mechanics.Springsat': (N2, ['K0', 'Ksat', 'xsat'], two(stor, ctrl='e', **spr)),
    'mechanics.Felt': (N2, ['L', 'F', 'A', 'B'], felt(0)),
    'mechanics_dual.Mass': (N2, ['M'], two(stor, ctrl='e', grad=lambda P: V(0) / P['M'])),
    'mechanics_dual.Stiffness': (N2, ['K'], two(stor, ctrl='f', grad=lambda P: V(0) * P['K'])),
    'mechanics_dual.Damper': (N2, ['A'], two(diss, **lin('A'))),
    'mechanics_dual.Springcubic': (N2, ['F1', 'F3', 'xref'], two(stor, ctrl='f', **cub)),
    'mechanics_dual.Springsat': (N2, ['K0', 'Ksat', 'xsat'], two(stor, ctrl='f', **spr)),
    'mechanics_dual.Felt': (N2, ['L', 'F', 'A', 'B'], felt(1)),
    'magnetics.Capacitor': (N2, ['C'], two(stor, ctrl='f', grad=lambda P: V(0) / P['C'])),
    'magnetics.Resistor': (N2, ['R'], two(diss, **lin('R'))),
    'magnetics.Capacitorsat': (N2, ['C0', 'Csat', 'phisat'], two(stor, ctrl='f', **cap)),
    'thermics.Capacitor': (('lab',), ['C', 'T0'], lambda P: [stor(D, 'lab', 'f', P['T0'] * sp.exp(V(0) / P['C']))]),
    'thermics.Transfer': (N2, ['R'], transfer),
}
SOURCES = {
    'electronics.Source': (N2, {'voltage': 'f', 'current': 'e'}),
    'mechanics.Source': (N2, {'force': 'e', 'velocity': 'f'}),
    'mechanics_dual.Source': (N2, {'force': 'f', 'velocity': 'e'}),
    'magnetics.Source': (N2, {'mmf': 'f', 'mfv': 'e'}),
    'thermics.Source': (('lab',), {'temperature': 'f', 'entropyvar': 'e'}),
}
VALUES = [sp.Rational(3, 2), sp.Rational(5, 4), sp.Rational(7, 8), sp.Rational(11, 4), sp.Rational(13, 8),
          sp.Rational(17, 16), sp.Rational(19, 8), sp.Rational(23, 16)]


def build(path, params, nodes, label='lab'):
    """instance of the component; GMIN is symbolic in its module so that its limit can be taken"""
    C = cls(path)
    mod = importlib.import_module(C.__module__)
    old = getattr(mod, 'GMIN', None)
    swap = old is not None and path in ('electronics.Bjt', 'electronics.Triode')
    if swap:
        mod.GMIN = GM
    try:
        return quiet(C, label, nodes, **params)
    finally:
        if swap:
            mod.GMIN = old


def limit(expr, keep=False):
    """value without regularisation: tanh(./GMIN) is the sign, GMIN conductances are null"""
    expr = sp.sympify(expr)
    expr = expr.replace(sp.tanh, lambda a: sp.sign(sp.simplify(a * GM)) if a.has(GM) else sp.tanh(a))
    return expr if keep else expr.xreplace({GM: sp.Integer(0)})


def powers(expr):
    """b**(n + k) as b**n * b**k, for symbolic exponents"""
    return expr.replace(lambda q: q.is_Pow and q.exp.is_Add and q.exp.free_symbols, lambda q: sp.Mul(*[
        sp.Pow(q.base, a) for a in q.exp.args]))


def exact(expr):
    """floats of the code as the rationals they are (and pi kept)"""
    return sp.sympify(expr).replace(lambda q: q.is_Float, lambda q: sp.Rational(str(sp.N(q, 17))) if
                                    abs(float(q) - round(float(q) * 64) / 64) else sp.Rational(round(float(q) * 64), 64))


def describe(g):
    out = []
    H = g.core.H
    zs = {str(w): z for w, z in zip(g.core.w, g.core.z)}
    for a, b, d in g.edges(data=True):
        e = dict(n1=a, n2=b, type=d['type'], ctrl=d.get('ctrl'), label=d['label'])
        if d['type'] == 'storage':
            e['grad'] = sp.diff(H, d['label'])
        if d['type'] == 'dissipative':
            e.update(e=d['z']['e_ctrl'], f=d['z']['f_ctrl'], z=zs.get(str(d['label'])))
        out.append(e)
    return out


def matches(got, exp):
    """permutations of the edges for which types and terminals agree, up to the names of internal nodes"""
    if len(got) != len(exp):
        return
    for perm in itertools.permutations(got):
        ren, ok = {}, True
        for q, p in zip(exp, perm):
            if q['type'] != p['type']:
                ok = False
                break
            for k in ('n1', 'n2'):
                if q[k].startswith('@'):
                    ok = ok and ren.setdefault(q[k], p[k]) == p[k] and p[k] not in (A1, A2, A3, D, 'lab')
                else:
                    ok = ok and q[k] == p[k]
            if not ok:
                break
        if ok and len(set(ren.values())) == len(ren):
            yield perm


def assume_range(path, P, var, symbols):
    """documented ranges: every parameter is positive; angle of the saturating laws; triode plate voltage"""
    out = [p > 0 for p in P.values() if p.is_Symbol]
    if path.endswith('Diode'):
        out += [S('gmin') > 0, var[0] > -P['Is']]
    if path.endswith('Triode'):
        out += [var[0] > 0]
    if path.endswith('Transfer'):
        out += [var[0] > 0, var[1] > 0]
    if path.endswith('Potentiometer'):
        out += [P['A']**P['E'] >= 0, P['A']**P['E'] <= 1]
    return out


def law(s, path, form):
    nodes, names, spec = ALL[path]
    if form == 'labels':
        par = {n: 'par' + n for n in names}
        P = {n: S('par' + n) for n in names}
    elif form == 'pairs':
        # labels are the names of the other parameters of the component
        lab = {n: names[(i + 1) % len(names)] if len(names) > 1 else 'lab' + n for i, n in enumerate(names)}
        par = {n: (lab[n], float(VALUES[i])) for i, n in enumerate(names)}
        P = {n: S(lab[n]) for n in names}
    else:
        par = {n: float(VALUES[i]) for i, n in enumerate(names)}
    g = build(path, dict(par), nodes)
    core = g.core
    if form == 'numbers':
        P = {}
        for i, n in enumerate(names):
            mine = [k for k, v in core.subs.items() if abs(float(v) - float(VALUES[i])) < 1e-12]
            s.expect('value_' + n, len(mine) == 1, 'one substitution for the value of %s: %s' % (n, core.subs))
            if len(mine) != 1:
                return
            P[n] = mine[0]
    if form == 'pairs':
        for i, n in enumerate(names):
            s.expect('value_' + n, abs(float(core.subs.get(S(lab[n]), 'nan')) - float(VALUES[i])) < 1e-12,
                     'value of %s' % n)
    if form == 'labels':
        s.expect('parameters', all(p in core.p for p in P.values()) or bool(s.replay),
                 'labels given without a value are parameters of the core: %s' % core.p)
    got = describe(g)
    exp = spec(P)
    def see(expr, perm):
        ren = {S('gx' + p['n2']): p['label'] for p in perm} if path.endswith('Transfer') else {}
        return powers(limit(exact(sp.sympify(expr).xreplace(ren))))
    best = None
    for perm in matches(got, exp):
        bad = 0
        m = {V(i): p['label'] for i, p in enumerate(perm)}
        for q, p in zip(exp, perm):
            for k in ('grad', 'e', 'f'):
                if q.get(k) is not None:
                    try:
                        bad += not c10.same(see(p[k], perm), sp.sympify(q[k]).xreplace(m))
                    except TypeError:
                        pass
        if best is None or bad < best[0]:
            best = (bad, perm)
    s.expect('edges', best is not None, 'edges of the component: %s' % [
        (e['n1'], e['n2'], e['type']) for e in got])
    if best is None:
        return
    perm = best[1]
    var = [p['label'] for p in perm]
    m = {V(i): p for i, p in enumerate(var)}
    rng = assume_range(path, P, var, None)
    for i, (q, p) in enumerate(zip(exp, perm)):
        tag = '%d_' % i
        if q['type'] == 'storage':
            s.expect(tag + 'ctrl', p['ctrl'] == q['ctrl'], 'control of the storage')
            prove(s, tag + 'law', see(p['grad'], perm), powers(q['grad'].xreplace(m)), rng)
            continue
        for k in 'ef':
            if q[k] is None or (p['ctrl'] not in ('?', k)):
                continue
            r = rng if k == 'f' or not path.endswith('Diode') else rng[:-1]
            prove(s, tag + 'law_' + k, see(p[k], perm), powers(sp.sympify(q[k]).xreplace(m)), r)
        ok = [k for k in 'ef' if q[k] is not None and p['ctrl'] in ('?', k)]
        s.expect(tag + 'ctrl', bool(ok) and (q['e'] is None or q['f'] is None or p['ctrl'] == '?'), 'control of the dissipation')
        z = see(p['z'], perm)
        want = next((k for k in ok if c10.same(z, see(p[k], perm))), (ok + ['e'])[0])
        prove(s, tag + 'core', z, see(p[want], perm), rng)
        if p['ctrl'] == '?' and form == 'labels':
            # the two forms are the same law
            zf = see(p['f'], perm)
            prove(s, tag + 'dual', see(p['e'], perm).xreplace({p['label']: zf}), p['label'], rng)
    if form == 'labels':
        passive(s, path, g, perm, P, var, rng)


def prove(s, key, got, want, rng):
    return s.prove_eq(key, got, want, assume=[q for q in rng if q.free_symbols])


def default(s, path):
    """the documented default values are the ones used"""
    nodes, names, spec = ALL[path]
    doc = dict((p[0], p[3]) for p in cls(path).metadata['parameters'])
    g = build(path, {}, nodes)
    h = build(path, {n: doc[n] for n in names}, nodes)
    a, b = [(sorted(((q['n1'], q['n2'], str(q['label']), str(q.get('e')), str(q.get('f')), str(q.get('grad')))
                     for q in describe(x))), {str(k): str(v) for k, v in x.core.subs.items()}) for x in (g, h)]
    s.expect('default', a == b, 'component without parameters: %s instead of %s' % (a, b))
    for n in names:
        num = not isinstance(doc[n], str)
        s.expect('value_' + n, num or any(p[0] == n and p[2] == 'string' for p in cls(path).metadata['parameters']),
                 'default value of %s is the label %r' % (n, doc[n]))


def passive(s, path, g, perm, P, var, rng):
    """energies and powers, with the elementary facts stated in the assumptions"""
    core = g.core
    if core.x and not path.startswith('thermics'):
        H = exact(core.H)
        x = core.x[0]
        if path.endswith('sat'):
            xs = P['phisat' if 'phisat' in P else 'xsat']
            t, lc = S('t'), S('logcos')
            # x = 2 xsat t / pi, |t| < pi/2, log(cos(t)) <= -t**2/2
            H = sp.simplify(H.xreplace({x: 2 * xs * t / sp.pi})).subs(sp.log(sp.cos(t)), lc)
            s.expect('energy_form', not H.has(sp.cos), 'energy in terms of log(cos)')
            s.prove_rel('energy', sp.Ge(H, 0), assume=rng + [lc <= -t**2 / 2], what='energy is non-negative')
        elif path.endswith('Felt'):
            c, L, F, B = S('cpow'), P['L'], P['F'], P['B']
            H = H.replace(lambda q: q.is_Pow and not q.exp.is_number, lambda q: c)
            s.prove_rel('energy', sp.Ge(H, 0), assume=rng + [c > 0], what='energy is non-negative')
        else:
            s.prove_rel('energy', sp.Ge(H, 0), assume=rng, what='energy is non-negative')
        s.prove_eq('rest', exact(core.H).subs(x, 0), 0, assume=rng, what='energy at rest')
    if not core.w:
        return
    if path.endswith('Felt'):
        c = S('cpow')
        pw = sum(w * exact(z) for w, z in zip(core.w, core.z))
        pw = pw.replace(lambda q: q.is_Pow and not q.exp.is_number, lambda q: c)
        return s.prove_rel('power', sp.Ge(pw, 0), assume=rng + [c > 0], what='dissipated power is non-negative')
    if path.endswith('Bjt'):
        # junctions, with v = mu Vt a, exp(a) = E: E increasing in a
        a, b, ka, kb = S('a'), S('b'), S('ka'), S('kb')
        Ea, Eb = 1 + a * ka, 1 + b * kb        # exp(0) = 1 and exp is increasing
        k = P['mu'] * P['Vt']
        z = [exact(p['e']).xreplace({var[0]: k * a, var[1]: k * b}) for p in perm[:2]]
        z = [sp.expand(q).subs(sp.exp(a), Ea).subs(sp.exp(b), Eb) for q in z]
        s.expect('power_form', not any(q.has(sp.exp) for q in z), 'law in terms of exp(v/(mu Vt))')
        pw = sp.expand((a * z[0] + b * z[1]) / P['Is'])
        # power is (a-b)(Ea-Eb) + a(Ea-1)/betaR + b(Eb-1)/betaF + GMIN terms
        facts = [(a - b) * (Ea - Eb) >= 0, ka > 0, kb > 0, GM >= 0]
        iF, iR, mm, g0 = S('iF'), S('iR'), S('kIs'), S('g')
        pw = sp.expand(sp.expand(pw).subs({P['betaR']: 1 / iR, P['betaF']: 1 / iF}))
        return s.prove_rel('power', sp.Ge(pw, 0), assume=facts + [iR > 0, iF > 0, P['mu'] > 0, P['Vt'] > 0, P['Is'] > 0],
                           what='dissipated power is non-negative')
    if path.endswith('Triode'):
        e = S('epow')
        z = {str(w): limit(exact(q), True) for w, q in zip(core.w, core.z)}
        z = {k: q.replace(lambda r: r.is_Pow and not r.exp.is_number, lambda r: e) for k, q in z.items()}
        v0, v1 = var
        base = sp.log
        # the current power law is positive for positive plate voltage
        sg = S('sgn')
        z = {k: q.replace(lambda r: isinstance(r, sp.sign) and r.has(sp.log), lambda r: sg) for k, q in z.items()}
        pw = v0 * z[str(v0)] + v1 * z[str(v1)]
        return s.prove_rel('power', sp.Ge(pw, 0), assume=rng + [e > 0, sg >= -1, sg <= 1, GM > 0, P['Va'] > 0],
                           what='dissipated power is non-negative')
    if path.endswith('Transfer'):
        zs = [exact(z).xreplace({S('gx' + p['n2']): p['label'] for p in perm}) for z in core.z]
        s.prove_eq('power', sum(w * z for w, z in zip(core.w, zs)), 0, assume=rng, what='heat is transferred, not lost')
        return s.prove_rel('entropy', sp.Le(sum(zs), 0), assume=rng, what='entropy does not decrease')
    for i, (w, z) in enumerate(zip(core.w, core.z)):
        r = rng
        if path.endswith('Potentiometer'):
            c = S('ae')
            z = z.replace(lambda q: q.is_Pow and not q.exp.is_number, lambda q: c)
            r = [P['R'] > 0, c >= 0, c <= 1]
        s.prove_rel('power%d' % i, sp.Ge(w * exact(z), 0), assume=r, what='dissipated power is non-negative')
        for p in perm:
            if p['label'] == w and p['ctrl'] == '?':
                for k in 'ef':
                    q = exact(p[k])
                    if path.endswith('Potentiometer'):
                        q = q.replace(lambda t: t.is_Pow and not t.exp.is_number, lambda t: S('ae'))
                    s.prove_rel('power%d_%s' % (i, k), sp.Ge(w * q, 0), assume=r if k == 'f' else [
                        t for t in r if w not in t.free_symbols])


def source(s, path):
    nodes, types = SOURCES[path]
    doc = [p for p in cls(path).metadata['parameters'] if p[0] == 'type'][0]
    for ty, ctrl in types.items():
        s.expect(ty + '_doc', ("'%s'" % ty) in doc[1], 'documented type')
        for const in (None, 2.5):
            kw = {} if const is None else dict(const=const)
            g = quiet(cls(path), 'lab', nodes, type=ty, **kw)
            es = list(g.edges(data=True))
            want = nodes if len(nodes) == 2 else (D, nodes[0])
            s.expect('%s_%s' % (ty, const), len(es) == 1 and tuple(es[0][:2]) == tuple(want) and
                     es[0][2]['type'] == 'port' and es[0][2]['ctrl'] == ctrl and
                     str(es[0][2]['label']) == 'ylab' and [str(q) for q in g.core.u] == ['ulab'] and
                     [str(q) for q in g.core.y] == ['ylab'], 'port of the source')
            s.expect('%s_%s_const' % (ty, const), dict(g.core.subs) == ({} if const is None else {S('ulab'): const}),
                     'constant input')
    g = quiet(cls(path), 'lab', nodes)
    s.expect('default', list(g.edges(data=True))[0][2]['ctrl'] == types[doc[3]], 'documented default type')
    # power entering through the port is u*y in both controls
    if path == 'thermics.Source':
        g = quiet(cls(path), 'lab', nodes, type='temperature')
        s.expect('temperature', g.core.observers == {S('gxlab'): S('ulab')}, 'temperature of the node')


def connector(s, path, form):
    al = dict(labels='ratio', pairs=('other', 2.5), numbers=2.5)[form]
    g = quiet(cls(path), 'lab', ('A1', 'A2', 'B1', 'B2'), **({'alpha': al} if form != 'none' else {}))
    es = list(g.edges(data=True))
    ok = len(es) == 2 and {tuple(e[:2]) for e in es} == {('A1', 'A2'), ('B1', 'B2')}
    s.expect('edges', ok, 'edges of the connector')
    c = g.core.connectors
    s.expect('one', len(c) == 1 and len(g.core.cy) == 2, 'one connector')
    lab = [e[2]['label'] for e in sorted(es, key=lambda e: e[0])]
    a = c[0]['alpha']
    val = sp.sympify(a).subs(g.core.subs)
    s.prove_eq('alpha', val, {'labels': S('ratio')}.get(form, sp.Rational(5, 2)), what='ratio of the connector')
    e0 = [e for e in es if e[2].get('alpha') is not None]
    s.expect('edge_alpha', len(e0) == 1 and e0[0][2]['alpha'] == a and tuple(e0[0][:2]) == ('A1', 'A2'), 'ratio on the first edge')
    s.expect('labels', [str(q) for q in c[0]['y']] == [str(q) for q in lab], 'outputs of the connector')
    s.expect('type', all(e[2]['connector_type'] == path.split('.')[-1].lower() and e[2]['type'] == 'connector' for e in es), 'type')


def dims(s):
    """numbers of nodes and edges of the documentation"""
    for path in list(ALL) + ['connectors.Gyrator', 'connectors.Transformer']:
        C = cls(path)
        if path in ALL:
            nodes, names, spec = ALL[path]
            par = {n: float(v) for n, v in zip(names, VALUES)}
        else:
            nodes, par = ('A1', 'A2', 'B1', 'B2'), {}
        g = quiet(C, 'lab', nodes, **par)
        s.expect('dims_' + path, (len(g.nodes), len(g.edges)) == (C.metadata['nnodes'], C.metadata['nedges']), 'documented number of nodes and edges of %s: %s' % (
            path, (len(g.nodes), len(g.edges))))


def shared(s):
    """the same Argument given to several components keeps its meaning"""
    from pyphs.dictionary.tools import Argument
    from pyphs.dictionary.edges import StorageLinear, DissipativeLinear
    for inv in (True, False):
        arg = Argument('val', 'val')
        gs = [quiet(StorageLinear, 'c%d' % i, N2, name='C', value=arg, inv_coeff=inv, ctrl='f') for i in range(2)]
        for i, g in enumerate(gs):
            x = g.core.x[0]
            s.prove_eq('storage_%s_%d' % (inv, i), sp.diff(g.core.H, x), x / S('val') if inv else x * S('val'),
                       assume=[sp.Ne(S('val'), 0)])
            s.expect('par_%s_%d' % (inv, i), list(g.core.p) == [S('val')], 'parameter of the component: %s' % g.core.p)
        arg = Argument('val', 'val')
        gs = [quiet(DissipativeLinear, 'r%d' % i, N2, coeff=arg, inv_coeff=inv) for i in range(2)]
        for i, g in enumerate(gs):
            w = g.core.w[0]
            d = list(g.edges(data=True))[0][2]['z']
            s.prove_eq('diss_%s_%d' % (inv, i), d['e_ctrl'], w * S('val') if inv else w / S('val'), assume=[sp.Ne(S('val'), 0)])
            s.prove_eq('dissf_%s_%d' % (inv, i), d['f_ctrl'], w / S('val') if inv else w * S('val'), assume=[sp.Ne(S('val'), 0)])


# -------------------------------------------------------------------------------------- composed components
def driven(component, ctrl):
    """component between NA and the datum, driven by a port"""
    from pyphs.dictionary.edges import Port
    g = pyphs.Graph(label='g')
    g += quiet(Port, 'in', (A1, D), ctrl=ctrl)
    g += component
    return g


def response(core):
    A, b, unk, outs = c10.core_transfer(core)
    sol = c10.solve_lin(A, b) if unk else []
    return {n: sp.sympify(e).xreplace({v: p[0][0] / p[0][1] for v, p in zip(unk, sol)}) for n, e in outs.items()}


def resolve(core, sub):
    """values of the substituted symbols in the core"""
    for name in ('_H',):
        pass
    core.H = exact(core.H.xreplace(sub))
    core.z = [exact(sp.sympify(z).xreplace(sub)) for z in core.z]
    core.M = sp.SparseMatrix(sp.Matrix(core.M).applyfunc(lambda q: exact(sp.sympify(q).xreplace(sub))))


def fractional(s, path, n):
    import scipy.optimize
    mu = [sp.Symbol('mu%d' % i, positive=True) for i in range(n)]
    gain = sp.Symbol('gain', positive=True)

    class Res:
        x = mu
    old = scipy.optimize.minimize
    scipy.optimize.minimize = lambda *a, **k: Res()
    order = 'beta' if 'int' in path else 'alpha'
    try:
        comp = quiet(cls(path), 'lab', (A1, D), g=gain, NbPoles=n, PolesMinMax=(0, max(n - 1, 0)), NbFreqPoints=5,
                     **{order: 0.5})
    finally:
        scipy.optimize.minimize = old
    ec = path.endswith('ec')
    g = driven(comp, 'f' if ec else 'e')
    core = quiet(g.to_core)
    sub = {k: sp.nsimplify(v, rational=True) for k, v in core.subs.items()}
    for k, v in comp.core.subs.items():
        sub.setdefault(k, sp.nsimplify(v, rational=True))
    resolve(core, sub)
    y = response(core)
    s_ = S('s')
    want = 0
    for i in range(n):
        xi = 10**i
        want += gain * mu[i] / (s_ + xi) * (s_ if 'der' in path else 1)
    u = core.u[0]
    # the port edge is in parallel with the component: e = e_component, f = - f_component
    s.prove_eq('transfer', y['in'], -want * u, assume=[], what='documented transfer function (poles %s)' % [10**i for i in range(n)])


def beam(s, n, contacts):
    mod = importlib.import_module('pyphs.dictionary.beams._cantilever')
    import numpy as np
    old = {k: getattr(mod, k) for k in ('beamLength', 'waveNumbers', 'omega_cosine')}
    ks = np.array([0.5, 1.25, 2.5][:n])
    om = {}

    def omega(zp, wp, Lb, k):
        key = (float(zp), float(wp))
        s.expect('length', float(Lb) == 3., 'length of the beam')
        s.expect('wave', np.array_equal(np.asarray(k).flatten(), ks), 'wave numbers')
        om[key] = [0.75 + 0.5 * len(om) + 0.25 * i * (1 + len(om)) for i in range(n)]
        return list(om[key])
    mod.beamLength = lambda F, Kb, Mb: 3.
    mod.waveNumbers = lambda N, Lb, Kb, Mb: (ks, ks)
    mod.omega_cosine = omega
    par = dict(F=440., N=n, R=0.5, E=2., M=4., A=0.25, D=2.)
    for i in range(contacts):
        par.update({'z%d' % (i + 1): 0.125 * (i + 1), 'w%d' % (i + 1): 0.0625 * i})
    names = ['NA', 'NB'][:contacts]
    try:
        comp = quiet(cls('beams.Cantilever'), 'lab', tuple(names), **par)
    finally:
        for k, v in old.items():
            setattr(mod, k, v)
    from pyphs.dictionary.edges import Port
    g = pyphs.Graph(label='g')
    for i, nn in enumerate(names):
        g += quiet(Port, 'in%d' % i, (nn, D), ctrl='e')
    g += comp
    core = quiet(g.to_core)
    val = {S('lab' + c + str(i)): S(c.lower() + str(i)) for c in 'KMA' for i in range(n)}
    Kb, Mb = 2 * sp.pi / 64, sp.pi
    for i in range(n):
        for c, want in (('K', Kb * sp.Rational(ks[i])**4), ('M', Mb),
                        ('A', sp.Rational(1, 4) * (10**(2. * i / (n - 1)) if n > 1 else 1))):
            got = core.subs.get(S('lab' + c + str(i)))
            s.expect('%s%d' % (c, i), got is not None and abs(float(got) - float(want)) < 1e-9 * float(want),
                     'modal coefficient %s%d: %s instead of %s' % (c, i, got, want))
    w = {}
    for c in range(contacts):
        for i in range(n):
            w[c, i] = S('om%d_%d' % (c, i))
            got = core.subs.get(S('labT%dalpha%d' % (c, i)))
            key = (0.125 * (c + 1) * 3., 0.0625 * c)
            s.expect('om%d_%d' % (c, i), got is not None and key in om and float(got) == om[key][i], 'modal projection')
            val[S('labT%dalpha%d' % (c, i))] = w[c, i]
    resolve(core, val)
    y = response(core)
    s_ = S('s')
    u = {str(q)[1:]: q for q in core.u}
    # the flux given to the port is minus the force; the velocity is the modal sum
    for c in range(contacts):
        want = 0
        for i in range(n):
            F = sum(w[d, i] * -u['in%d' % d] for d in range(contacts))
            want += w[c, i] * F / (S('m%d' % i) * s_ + S('a%d' % i) + S('k%d' % i) / s_)
        s.prove_eq('mobility%d' % c, y['in%d' % c], want, assume=[sp.Ne(s_, 0)], what='modal response of the beam')


def scenarios(tier):
    out = []
    for path in ALL:
        for form in ('labels', 'pairs', 'numbers'):
            out.append(('%s_%s' % (path, form), law, dict(path=path, form=form)))
        out.append(('%s_default' % path, default, dict(path=path)))
    for path in SOURCES:
        out.append((path, source, dict(path=path)))
    for path in ('connectors.Gyrator', 'connectors.Transformer'):
        for form in ('labels', 'pairs', 'numbers'):
            out.append(('%s_%s' % (path, form), connector, dict(path=path, form=form)))
    out += [('dims', dims, {}), ('shared', shared, {})]
    for path in ('Fracintec', 'Fracintfc', 'Fracderec', 'Fracderfc'):
        for n in (1, 2) if tier == 'quick' else (1, 2, 3):
            out.append(('%s_%d' % (path, n), fractional, dict(path='fraccalc.' + path, n=n)))
    for n, c in ((1, 1), (2, 1), (1, 2), (2, 2)) + (() if tier == 'quick' else ((3, 1), (3, 2))):
        out.append(('beam_%d_%d' % (n, c), beam, dict(n=n, contacts=c)))
    return out
