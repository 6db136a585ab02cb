"""C09: substitution and simplification preserve the value of every expression."""
import sympy as sp
from vlib.env import import_pyphs
pyphs = import_pyphs()
from vlib import cores  # noqa
from pyphs import Core  # noqa
from pyphs.core.tools import free_symbols  # noqa
from pyphs.core.tools import simplify as simp  # noqa
S, F = cores.S, cores.F

META = dict(
    explanation='substitute, subsinverse and simplify are executed on systems whose energy, laws, '
    'structure, observers, connectors and gradient contain parameters in many syntactic forms. The '
    'expected value of each quantity is the original expression with every substituted parameter '
    'replaced (simultaneously) by its fully resolved value; z3 proves equality for all values of the '
    'remaining symbols, and the dictionary that remains is proved to describe the same values.',
    bounds=['dictionaries of up to 5 chained entries in several insertion and naming orders',
            'the expression families of checks/c09.py, including Piecewise, Abs, powers and exponentials'],
    outside=['circular dictionaries', 'the form (as opposed to the value) of simplified expressions',
             'parameters given the value 0 whose inverse is used'],
    assumptions=['real arithmetic; literals as the doubles they denote, compared within 1e-12 relative'],
    functions=['substitute_core', 'substitute_scalar/vector/matrix/dict', 'subsinverse_core',
               'subsinverse_scalar/vector/matrix/dict', 'simplify', 'simplify_core', 'free_symbols'])


def base(names='abcde', forms='poly', obs=True, conn=True, own=False):
    """a system using parameters P = (p0..p4), named as given so that sorting orders vary"""
    P = [S(n) for n in names]
    c = Core('sub')
    x = [S('x1'), S('x2')]
    w = [S('w1'), S('w2')]
    a, b, d, e, f = P
    if forms == 'poly':
        c.add_storages(x, a * x[0]**2 / 2 + (b * x[1])**2 + F('h')(d * x[0]) + e)
        c.add_dissipations(w, [a * b * w[0], F('z')(f * w[1], d)])
        ent = [a, a * b - d, e**2, f, b * x[0]]
    elif forms == 'rational':
        c.add_storages(x, x[0]**2 / (2 * a) + x[1]**2 / b**2 + x[0] * x[1] / (a * b))
        c.add_dissipations(w, [w[0] / d, (w[1] + e) / (a * (f + d))])
        ent = [1 / a, 2 / b**3, a / d, d / a + 1 / (1 + e), x[0] / f]
    elif forms == 'elem':
        c.add_storages(x, sp.log(1 + (x[0] / a)**2) * b + sp.exp(-x[1] / d) * e)
        c.add_dissipations(w, [a * sp.sinh(w[0] / b), sp.sign(w[1]) * sp.Abs(w[1] / d) / f])
        ent = [sp.sin(a * x[0]), sp.sqrt(b**2 + 1), sp.exp(d / e), sp.tanh(x[1] / f), 1]
    else:
        c.add_storages(x, sp.Piecewise((x[0]**2 / a, x[0] > 1 / b), (a * x[0], True)) + x[1]**2 / d)
        c.add_dissipations(w, [sp.Piecewise((w[0] / e, w[0] > a), (w[0] * f, True)), w[1]])
        ent = [sp.Piecewise((1 / a, x[0] > b), (d, True)), b, 1 / d, e, f]
    cores.ports(c, 3 if conn else 1)
    cores.fullM(c)
    M = sp.Matrix(c.M)
    for k, v in enumerate(ent):
        M[k // 3, (k + 1) % 3] = v
    c.M = sp.SparseMatrix(M)
    if obs:
        c.add_observer({S('o1'): x[0] / a + b * S('u1'), S('o2'): F('ob')(d)})
    if own:
        c._dxH = [a * x[0] / b, F('g')(d * x[1])]
    if conn:
        c.add_connector((0, 2), a / (1 + d**2))
    return c, P


# dictionaries: positions -> value (function of the parameters and of free symbols)
DICTS = dict(
    numeric=lambda P: [(P[0], 2), (P[1], 0.5), (P[2], sp.Rational(3, 7))],
    floats=lambda P: [(P[0], 0.125), (P[4], 4.0)],
    exprs=lambda P: [(P[0], S('q')**2 + 1), (P[1], S('t'))],
    chain=lambda P: [(P[0], P[1] + 1), (P[1], 2 * P[2]), (P[2], 4)],
    chain_rev=lambda P: [(P[2], 4), (P[1], 2 * P[2]), (P[0], P[1] + 1)],
    chain_expr=lambda P: [(P[0], P[1] * P[3]), (P[1], P[2] + S('q')), (P[2], P[4]**2 + 1)],
    chain_long=lambda P: [(P[0], P[1] + P[4]), (P[1], P[2] * 2), (P[2], P[3] + 1), (P[3], P[4]**2),
                          (P[4], 0.5)],
    diamond=lambda P: [(P[0], P[1] * P[2]), (P[1], P[3] + 2), (P[2], 1 / (1 + P[3]**2)), (P[3], S('q'))],
    mixed=lambda P: [(P[0], 4), (P[1], P[0] * S('q')), (P[3], P[1] + P[0])],
)


def resolve(d):
    """fully resolved values (the reference: every parameter has one value)"""
    d = {k: sp.sympify(v) for k, v in d}
    for _ in range(len(d) + 1):
        d = {k: v.subs(d, simultaneous=True) if v.free_symbols & set(d) else v for k, v in d.items()}
    return d


def quantities(c):
    """{name: expression} of everything a system evaluates"""
    ex = {'H': c.H}
    for k, v in enumerate(c.dxH()):
        ex['dxH%d' % k] = v
    for k, v in enumerate(c.z):
        ex['z%d' % k] = v
    n, m = c.M.shape
    for i in range(n):
        for j in range(m):
            ex['M%d,%d' % (i, j)] = c.M[i, j]
    for k, v in c.observers.items():
        ex['o:%s' % k] = v
    for i, k in enumerate(c.connectors):
        ex['alpha%d' % i] = sp.sympify(k['alpha'])
    for nm in ('Q', 'Zl'):
        m = getattr(c, nm)
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                ex['%s%d,%d' % (nm, i, j)] = m[i, j]
    for k, v in enumerate(c.bl):
        ex['bl%d' % k] = v
    return ex


def syms(c):
    return {k: [str(v) for v in getattr(c, k)] for k in sorted(c.symbs_names)}


def doit(e):
    return sp.sympify(e).doit() if sp.sympify(e).has(sp.Subs, sp.Derivative) else sp.sympify(e)


def value_equal(s, tag, got, ref, values, what, tol=1e-12):
    if not s.expect(tag + 'keys', set(got) == set(ref), 'quantities of the system'):
        return
    pairs = []
    for k in sorted(ref):
        want = sp.sympify(ref[k]).subs(values, simultaneous=True) if values else sp.sympify(ref[k])
        pairs.append((tag + k, doit(sp.sympify(got[k])), doit(want)))
    s.prove_all(tag + 'values', pairs, what=what)


def no_left(s, tag, c, gone):
    left = set()
    for v in quantities(c).values():
        left |= sp.sympify(v).free_symbols & set(gone)
    s.expect(tag + 'resolved', not left, 'substituted parameters are still present: %s' % sorted(map(str, left)))


def selfsubs(s, dic, names, forms, mode, tier):
    """values from core.subs: all of them (selfall) or the expressions (selfexprs)"""
    c, P = base(names, forms)
    ref, sy = quantities(c), syms(c)
    d = DICTS[dic](P)
    for k, v in d:
        c.subs[k] = v
    full = resolve(d)
    c.substitute(**{mode: True})
    left = dict(c.subs)
    if mode == 'selfall':
        s.expect('emptied', not left, 'all the substitutions are applied')
        no_left(s, '', c, [k for k, _ in d])
    else:
        ex = [k for k, v in d if not isinstance(v, (int, float))]
        s.expect('kept', set(left) == {k for k, v in d} - set(ex),
                 'numerical substitutions are kept, expressions removed: %s' % left)
        no_left(s, '', c, ex)
    # what remains in the dictionary is applied to both sides
    rest = resolve(list(left.items()))
    got = {k: sp.sympify(v).subs(rest, simultaneous=True) if rest else v for k, v in quantities(c).items()}
    value_equal(s, '', got, ref, full, 'value after the substitution of the parameters')
    s.expect('symbols', syms(c) == sy, 'variables unchanged')
    for k, v in rest.items():
        s.prove_eq('left_%s' % k, v, full[k], what='value left in the dictionary')


def explicit(s, dic, names, forms, tier, own=False, with_self=False):
    """substitution by a dictionary of the caller"""
    c, P = base(names, forms, own=own)
    ref = quantities(c)
    d = DICTS[dic](P)
    mine = dict(d)
    before = dict(mine)
    c.subs[S('q')] = S('v') + 1
    c.subs[P[4]] = c.subs.get(P[4], 7)
    kw = dict(selfall=True) if with_self else {}
    tot = dict(d)
    if with_self:
        tot.update({S('q'): S('v') + 1, P[4]: 7})
    c.substitute(subs=mine, **kw)
    s.expect('caller', mine == before and list(mine) == list(before), "the caller's dictionary is not modified")
    if dic.startswith(('chain', 'diamond', 'mixed')) and not with_self:
        return
    full = resolve(list(tot.items()))
    no_left(s, '', c, list(tot))
    value_equal(s, '', quantities(c), ref, full, 'value after an explicit substitution')
    want = {} if with_self else {k: v for k, v in ((S('q'), S('v') + 1), (P[4], 7)) if k not in tot}
    s.expect('left', {k: sp.sympify(v) for k, v in c.subs.items()} ==
             {k: sp.sympify(v).subs(full) for k, v in want.items()}, 'other substitutions are kept')


def rename(s, tier):
    """substitution of a variable: every occurrence, including the lists of symbols"""
    c, P = base('abcde', 'poly')
    ref = quantities(c)
    new = {S('x1'): S('position'), S('w2'): S('current'), S('u1'): S('drive'), P[0]: S('alpha')}
    c.substitute(subs=dict(new))
    s.expect('names', [str(v) for v in c.x] == ['position', 'x2'] and
             [str(v) for v in c.w] == ['w1', 'current'] and 'drive' in [str(v) for v in c.u + c.cu],
             'variables renamed')
    value_equal(s, '', quantities(c), ref, new, 'value after renaming')


def inverse(s, dic, names, forms, tier, own=False):
    c, P = base(names, forms, own=own)
    ref, sy = quantities(c), syms(c)
    d = {k: sp.sympify(v) for k, v in DICTS[dic](P)}
    for k, v in DICTS[dic](P):
        c.subs[k] = v
    orig = dict(c.subs)
    c.subsinverse()
    s.expect('kept', all(c.subs.get(k) == v for k, v in orig.items()), 'entries of the dictionary are kept')
    s.expect('symbols', syms(c) == sy, 'variables unchanged')
    new = {k: v for k, v in c.subs.items() if k not in orig}
    full = resolve(list(c.subs.items()))
    got = {k: doit(v).subs(full, simultaneous=True) for k, v in quantities(c).items()}
    value_equal(s, '', got, ref, resolve(list(d.items())), 'value after subsinverse')
    inv = [k for k in new if not (str(k).startswith('inv') and S(str(k)[3:]) in orig)]
    s.expect('named', not inv, 'only inverses of parameters are added')
    for k in new:
        s.prove_eq('inv_%s' % k, full[k] * full[S(str(k)[3:])], 1,
                   assume=[sp.Ne(full[S(str(k)[3:])], 0)] if not full[S(str(k)[3:])].is_number else [],
                   what='product of a parameter and its inverse')


def simplified(s, forms, own, tier):
    c, P = base('abcde', forms, own=own)
    ref, sy = quantities(c), syms(c)
    c.linear_nonlinear() if forms == 'rational' else None
    ref = quantities(c)
    sy = syms(c)
    c.simplify()
    s.expect('symbols', syms(c) == sy, 'variables unchanged')
    value_equal(s, '', quantities(c), ref, {}, 'value after simplification')
    c, P = base('abcde', forms, own=own)
    ref = quantities(c)
    c.subs.update(dict(DICTS['exprs'](P)))
    c.substitute(selfall=True, simplify=True)
    value_equal(s, 'sub_', quantities(c), ref, resolve(DICTS['exprs'](P)), 'substitution with simplify')


def simplify_types(s, tier):
    """the simplify function on every type of container"""
    a, b, x = S('a'), S('b'), S('x')
    es = [(a**2 - b**2) / (a - b) * x, sp.sin(x)**2 + sp.cos(x)**2 * a**0, x * (a + b) - x * a, a / (a * x),
          sp.Piecewise((x + x, x > a), (x * 2, True)), sp.Integer(3), x]
    for k, e in enumerate(es):
        if k == 1:
            continue
        s.prove_eq('scalar_%d' % k, simp(e), e, what='simplified scalar')
    v = simp(list(es))
    s.expect('vec', isinstance(v, list) and len(v) == len(es), 'vector keeps its length')
    s.prove_all('vec_v', [('v%d' % k, p, q) for k, (p, q) in enumerate(zip(v, es)) if k != 1], what='vector')
    m0 = sp.SparseMatrix(3, 3, [es[0], 0, es[2], 0, 0, es[3], es[4], 0, x])
    m = simp(m0.copy())
    s.expect('mat', m.shape == (3, 3), 'matrix keeps its shape')
    s.prove_all('mat_v', [('m%d%d' % (i, j), m[i, j], m0[i, j]) for i in range(3) for j in range(3)], what='matrix')
    d0 = {a: es[0], b: es[2], x: es[3]}
    d = simp(dict(d0))
    s.expect('dict', set(d) == set(d0), 'dictionary keeps its keys')
    s.prove_all('dict_v', [('d%s' % k, d[k], d0[k]) for k in d0], what='dictionary')


def freesym(s, forms, tier):
    """the symbols reported are exactly those on which a quantity can depend"""
    c, P = base('abcde', forms)
    want = set()
    for k in ('H', 'z', 'Q', 'Zl', 'bl'):
        want |= free_symbols(getattr(c, k))
    want |= free_symbols(c.M)
    s.expect('freesymbols', set(c.freesymbols()) == want and want, 'free symbols of the expressions')
    for nm, e in quantities(c).items():
        shift = {v: S(str(v) + '_alt') for v in sp.sympify(e).free_symbols - free_symbols(sp.sympify(e))}
        s.prove_eq('dep_' + nm, e, sp.sympify(e).subs(shift), what='dependency not reported')


def allnames(tier):
    return ['abcde', 'edcba', 'bdace'] if tier == 'quick' else ['abcde', 'edcba', 'bdace', 'cabed', 'dbeca']


def scenarios(tier):
    out = []
    quick = tier == 'quick'
    forms = ['poly', 'rational', 'elem', 'piece']
    for n, nm in enumerate(allnames(tier)):
        for k, dic in enumerate(DICTS):
            for mode in ('selfall', 'selfexprs'):
                for fm in ([forms[(k + n) % 4]] if quick else forms):
                    out.append(('%s_%s_%s_%s' % (mode, dic, nm, fm), selfsubs,
                                dict(dic=dic, names=nm, forms=fm, mode=mode, tier=tier)))
    for k, dic in enumerate(DICTS):
        for fm in ([forms[k % 4]] if quick else forms):
            nm = allnames(tier)[k % 3]
            out.append(('explicit_%s_%s' % (dic, fm), explicit, dict(dic=dic, names=nm, forms=fm, tier=tier)))
            out.append(('withself_%s_%s' % (dic, fm), explicit,
                        dict(dic=dic, names=nm, forms=fm, tier=tier, with_self=True)))
    out.append(('explicit_own', explicit, dict(dic='numeric', names='abcde', forms='poly', tier=tier, own=True)))
    for k, dic in enumerate(('numeric', 'floats', 'exprs', 'chain', 'diamond')):
        for fm in (['rational', forms[k % 4]] if quick else forms):
            if ('inverse_%s_%s' % (dic, fm)) not in [o[0] for o in out]:
                out.append(('inverse_%s_%s' % (dic, fm), inverse,
                            dict(dic=dic, names='abcde', forms=fm, tier=tier, own=k % 2 == 1)))
    for fm in forms:
        out.append(('simplify_' + fm, simplified, dict(forms=fm, own=fm == 'poly', tier=tier)))
        out.append(('freesym_' + fm, freesym, dict(forms=fm, tier=tier)))
    out += [('rename', rename, dict(tier=tier)), ('simplify_types', simplify_types, dict(tier=tier))]
    return out
