"""C05: moves and splits permute the components and change nothing else."""
import itertools
import sympy as sp
from vlib.env import import_pyphs
pyphs = import_pyphs()
from vlib import cores  # noqa
from pyphs import Core  # noqa
S, F = cores.S, cores.F

META = dict(
    explanation='The real move and split functions are executed on cores whose structure matrix and '
    'laws are symbolic. Equations are compared variable by variable, by name: for every value of the '
    'efforts, dissipation variables, states and matrix entries, the flow associated with each name is '
    'the same before and after. The coefficient matrices reported for the linear part are proved to '
    'reproduce the laws, and separability is proved as a finite-difference identity.',
    bounds=['moves: every (i, j) for up to 4 storages, 4 dissipations, 3 ports, 3 connectors, and '
            'sequences of 2 moves', 'splits: the families listed in vlib/cores.py and checks/c05.py'],
    outside=['moves of a component across the linear/nonlinear boundary after the split (the split '
             'has to be redone, as the class does itself)'],
    assumptions=['real arithmetic', 'nonlinear laws are undefined functions or polynomials'],
    functions=['move_stor', 'move_diss', 'move_port', 'move_connector', 'movesquarematrixcolnrow',
               'movematrixcols', 'myrange', 'linear_nonlinear', 'monovar_multivar', 'hessian',
               'jacobian', 'gradient'])


def equations(core, tag=''):
    """{variable name: flow expression} of b = M a with free symbolic efforts named after variables"""
    n = core.dims.tot()
    rows = ['x:%s' % v for v in core.x] + ['w:%s' % v for v in core.w] + \
        ['y:%s' % v for v in core.y] + ['c:%s' % v for v in core.cy]
    cols = [S('eff_' + str(v)) for v in core.x] + [S('zz_' + str(v)) for v in core.w] + \
        list(core.u) + list(core.cu)
    if not (len(rows) == len(cols) == n and core.M.shape == (n, n)):
        return None
    return {r: sum(core.M[i, j] * cols[j] for j in range(n)) for i, r in enumerate(rows)}


def snap(core):
    return dict(eqs=equations(core), H=core.H, z=dict(zip(map(str, core.w), core.z)),
                g=dict(zip(map(str, core.x), core.dxH())), uy=dict(zip(map(str, core.u), map(str, core.y))),
                c=dict(zip(map(str, core.cu), map(str, core.cy))),
                n=(len(core.x), len(core.w), len(core.u), len(core.y), len(core.cu), len(core.cy), len(core.z)))


def compare(s, tag, a, b):
    if not s.expect(tag + 'shape', b['eqs'] is not None and a['n'] == b['n'], 'dimensions changed'):
        return False
    if not s.expect(tag + 'names', set(a['eqs']) == set(b['eqs']), 'variables lost or duplicated'):
        return False
    s.expect(tag + 'ports', a['uy'] == b['uy'] and a['c'] == b['c'], 'inputs and outputs stay paired')
    pairs = [(tag + k, b['eqs'][k], a['eqs'][k]) for k in a['eqs']]
    pairs += [(tag + 'z_' + k, b['z'][k], a['z'][k]) for k in a['z']]
    pairs += [(tag + 'g_' + k, b['g'][k], a['g'][k]) for k in a['g']]
    pairs += [(tag + 'H', b['H'], a['H'])]
    return s.prove_all(tag + 'all', pairs, what='equation of the component after the operation')


def big():
    c = Core('moves')
    x = [S('x%d' % i) for i in range(1, 5)]
    c.add_storages(x, F('h')(*x))
    w = [S('w%d' % i) for i in range(1, 5)]
    c.add_dissipations(w, [F('z%d' % i)(v) for i, v in enumerate(w)])
    cores.ports(c, 3)
    c.cu += [S('cu%d' % i) for i in range(3)]
    c.cy += [S('cy%d' % i) for i in range(3)]
    return cores.fullM(c)


def moved(names, i, j):
    l = list(names)
    l.insert(j, l.pop(i))
    return l


KINDS = dict(storage=('move_storage', 'x', 4), dissipative=('move_dissipative', 'w', 4),
             port=('move_port', 'u', 3), connector=('move_connector', 'cu', 3))


def moves(s, kind, tier):
    fname, var, n = KINDS[kind]
    ref = snap(big())
    for i, j in itertools.product(range(n), repeat=2):
        c = big()
        if kind == 'storage':
            c._dxH = [F('gg%d' % k)(*c.x) for k in range(4)]
            ref['g'] = dict(zip(map(str, c.x), c._dxH))
        before = [str(v) for v in getattr(c, var)]
        getattr(c, fname)(i, j)
        s.expect('order_%d_%d' % (i, j), [str(v) for v in getattr(c, var)] == moved(before, i, j),
                 'component %d moved to position %d' % (i, j))
        compare(s, 'm%d%d_' % (i, j), ref, snap(c))


def move_pairs(s, k1, k2, tier):
    f1, _, n1 = KINDS[k1]
    f2, _, n2 = KINDS[k2]
    ref = snap(big())
    for (a, b, d, e) in ((0, n1 - 1, 0, n2 - 1), (n1 - 1, 0, 1, n2 - 1), (1, 2, n2 - 1, 1)):
        c = big()
        getattr(c, f1)(a, b)
        getattr(c, f2)(d, e)
        compare(s, 'p%d%d%d%d_' % (a, b, d, e), ref, snap(c))


# ---------------------------------------------------------------------- splits
def z_mixed():
    """a law affine in one variable but fed by a nonlinear one"""
    c = Core('zmixed')
    w = [S('w1'), S('w2'), S('w3')]
    c.add_storages(S('x1'), S('x1')**2 / 2)
    c.add_dissipations(w, [S('r1') * w[0] + w[1]**3, w[1]**3, S('r3') * w[2]])
    cores.ports(c, 1)
    return cores.fullM(c, skew=True)


def z_mixed_lin():
    c = Core('zmixedlin')
    w = [S('w1'), S('w2'), S('w3')]
    c.add_dissipations(w, [S('r1') * w[0] + S('k') * w[1], w[1]**3, S('r3') * w[2] + w[0]])
    cores.ports(c, 1)
    return cores.fullM(c, skew=True)


def z_offset():
    c = Core('zoffset')
    w = [S('w1'), S('w2')]
    c.add_dissipations(w, [S('r1') * w[0] + S('E'), S('r2') * w[1]])
    cores.ports(c, 1)
    return cores.fullM(c, skew=True)


def z_state():
    """linear law modulated by the state"""
    c = Core('zstate')
    w = [S('w1'), S('w2')]
    c.add_storages(S('x1'), S('x1')**4)
    c.add_dissipations(w, [w[0]**5, S('r2') * w[1] * (1 + S('x1')**2)])
    cores.ports(c, 1)
    return cores.fullM(c, skew=True)


def z_swap():
    """each law depends on the other variable"""
    c = Core('zswap')
    w = [S('w1'), S('w2'), S('w3')]
    c.add_dissipations(w, [w[2]**3, S('r') * w[2] + S('t') * w[1], w[0]**3 + w[2]])
    cores.ports(c, 1)
    return cores.fullM(c, skew=True)


def h_offset():
    c = Core('hoff')
    x = [S('x%d' % i) for i in range(1, 5)]
    c.add_storages(x, F('h')(x[0]) + S('q') * (x[1] - S('l'))**2 / 2 + x[2]**2 * S('k') + x[3]**2 +
                   x[2] * x[3] + S('E') * x[3])
    cores.ports(c, 1)
    return cores.fullM(c, skew=True)


def h_alternate():
    c = Core('halt')
    x = [S('x%d' % i) for i in range(1, 6)]
    c.add_storages(x, F('h1')(x[0]) + x[1]**2 + F('h3')(x[2], x[4]) + x[3]**2 * S('q'))
    cores.ports(c, 1)
    return cores.fullM(c, skew=True)


def h_pairs():
    """two non separable pairs and a separable one between them"""
    c = Core('hpairs')
    x = [S('x%d' % i) for i in range(1, 6)]
    c.add_storages(x, F('h1')(x[0], x[3]) + F('h2')(x[1]) + F('h3')(x[2], x[4]))
    cores.ports(c, 1)
    return cores.fullM(c, skew=True)


SPLITS = [z_mixed, z_mixed_lin, z_offset, z_state, z_swap, h_offset, h_alternate, h_pairs] + [
    b for b in cores.ALL if b not in (cores.grad_dep,)]


def laws(s, tag, c):
    """the reported coefficients reproduce the laws; reported separable storages are separable"""
    nl, nwl, nm = c.dims.xl(), c.dims.wl(), c.dims.xnl_mono()
    ok = 0 <= nl <= len(c.x) and 0 <= nwl <= len(c.w)
    if not s.expect(tag + 'dims', ok and c.Q.shape == (nl, nl) and len(c.bl) == nl and
                    c.Zl.shape == (nwl, nwl), 'dimensions of Q, bl, Zl'):
        return
    x, w = list(c.x), list(c.w)
    pairs = []
    for i in range(nl):
        pairs.append(('%sQ_%d' % (tag, i), sum(c.Q[i, j] * x[j] for j in range(nl)) + c.bl[i],
                      sp.diff(c.H, x[i])))
    if nl:
        s.prove_all(tag + 'Q', pairs, what='gradient of the linear storages vs Q x + b')
        sh = {v: S(str(v) + '_alt') for v in x}
        s.prove_all(tag + 'Qconst', [('%sQc_%d_%d' % (tag, i, j), c.Q[i, j],
                                      c.Q[i, j].subs(sh, simultaneous=True)) for i in range(nl)
                                     for j in range(nl)] +
                    [('%sbc_%d' % (tag, i), c.bl[i], sp.sympify(c.bl[i]).subs(sh, simultaneous=True))
                     for i in range(nl)], what='Q and b do not depend on the state')
        shl = {v: S(str(v) + '_alt') for v in x[:nl]}
        s.prove_all(tag + 'nlgrad', [('%sng_%d' % (tag, i), sp.diff(c.H, x[i]),
                                      sp.diff(c.H, x[i]).subs(shl, simultaneous=True))
                                     for i in range(nl, len(x))],
                    what='gradient of the nonlinear storages is independent of the linear ones')
    if nwl:
        s.prove_all(tag + 'Zl', [('%sZ_%d' % (tag, i), sum(c.Zl[i, j] * w[j] for j in range(nwl)), c.z[i])
                                 for i in range(nwl)], what='linear dissipation law vs Zl w')
        sh = {v: S(str(v) + '_alt') for v in w}
        s.prove_all(tag + 'Zconst', [('%sZc_%d_%d' % (tag, i, j), c.Zl[i, j],
                                      c.Zl[i, j].subs(sh, simultaneous=True)) for i in range(nwl)
                                     for j in range(nwl)], what='Zl does not depend on w')


def separable(s, tag, c):
    nl, nm = c.dims.xl(), c.dims.xnl_mono()
    x = list(c.x)
    if not s.expect(tag + 'mono', 0 <= nm <= len(x) - nl, 'number of separable storages'):
        return
    for i in range(nl, nl + nm):
        for j in range(nl, len(x)):
            if i == j:
                continue
            a, b = {x[i]: S('alt_i')}, {x[j]: S('alt_j')}
            H = c.H
            ab = dict(a)
            ab.update(b)
            s.prove_eq('%ssep_%d_%d' % (tag, i, j), H + H.subs(ab, simultaneous=True),
                       H.subs(a) + H.subs(b), what='storages reported separable share an energy term')


def split(s, build, tier):
    c = build()
    ref = snap(c)
    c.linear_nonlinear()
    if not compare(s, 'ln_', ref, snap(c)):
        return
    laws(s, 'ln_', c)
    c.monovar_multivar()
    compare(s, 'mono_', ref, snap(c))
    laws(s, 'mono_', c)
    separable(s, '', c)
    # splitting again changes nothing
    first = [list(map(str, c.x)), list(map(str, c.w)), c.dims.xl(), c.dims.wl(), c.dims.xnl_mono()]
    c.linear_nonlinear()
    c.monovar_multivar()
    compare(s, 'twice_', ref, snap(c))
    laws(s, 'twice_', c)
    s.expect('stable', sorted(first[0]) == sorted(map(str, c.x)) and first[2:] ==
             [c.dims.xl(), c.dims.wl(), c.dims.xnl_mono()], 'splitting twice')
    # permutations inside the groups
    nl, nwl, nx, nw = c.dims.xl(), c.dims.wl(), len(c.x), len(c.w)
    for tag, f, lo, hi in (('xl', c.move_storage, 0, nl), ('wl', c.move_dissipative, 0, nwl)):
        if hi - lo > 1:
            f(lo, hi - 1)
            compare(s, 'in%s_' % tag, ref, snap(c))
            laws(s, 'in%s_' % tag, c)
    c = build()
    c.monovar_multivar()
    compare(s, 'monoonly_', ref, snap(c))
    separable(s, 'monoonly_', c)


def lin_many():
    c = Core('linmany')
    x = [S('x%d' % i) for i in range(1, 6)]
    c.add_storages(x, sum(S('q%d' % i) * v**2 / 2 + S('b%d' % i) * v for i, v in enumerate(x[:4])) +
                   S('k') * x[0] * x[2] + S('t') * x[1] * x[3] + F('h')(x[4]))
    w = [S('w%d' % i) for i in range(1, 6)]
    c.add_dissipations(w, [sum(S('r%d%d' % (i, j)) * w[j] for j in range(4)) for i in range(4)] +
                       [F('z')(w[4])])
    cores.ports(c, 1)
    return cores.fullM(c, skew=True)


def inside(s, kind, tier):
    """moves inside the linear group after the split, then a second move and a reduction"""
    ref = snap(lin_many())
    f = 'move_storage' if kind == 'xl' else 'move_dissipative'
    for i, j in itertools.product(range(4), repeat=2):
        c = lin_many()
        c.linear_nonlinear()
        if not s.expect('groups_%d_%d' % (i, j), (c.dims.xl(), c.dims.wl()) == (4, 4), 'linear components'):
            return
        getattr(c, f)(i, j)
        laws(s, '%s%d%d_' % (kind, i, j), c)
        compare(s, '%s%d%d_' % (kind, i, j), ref, snap(c))
        getattr(c, f)(j, (i + 2) % 4)
        laws(s, '%s%d%d2_' % (kind, i, j), c)


def accessors(s, build, tier):
    """xl/xnl, wl/wnl, zl/znl, dxHl/dxHnl partition the lists"""
    c = build()
    c.linear_nonlinear()
    nl, nwl = c.dims.xl(), c.dims.wl()
    for base, l, n in (('x', list(c.x), nl), ('w', list(c.w), nwl), ('z', list(c.z), nwl),
                       ('dxH', list(c.dxH()), nl), ('dx', list(c.dx()), nl)):
        a, b = list(getattr(c, base + 'l')()), list(getattr(c, base + 'nl')())
        if s.expect('len_' + base, len(a) == n and len(a) + len(b) == len(l), 'lengths'):
            s.prove_all(base, [('%s_%d' % (base, i), p, q) for i, (p, q) in enumerate(zip(a + b, l))],
                        what='linear then nonlinear components')
    s.expect('dims', c.dims.l() == nl + nwl and c.dims.nl() == len(c.x) - nl + len(c.w) - nwl and
             c.dims.xnl() == len(c.x) - nl and c.dims.wnl() == len(c.w) - nwl, 'dimensions')


def scenarios(tier):
    out = [('move_' + k, moves, dict(kind=k, tier=tier)) for k in KINDS]
    for a, b in itertools.product(KINDS, repeat=2):
        if tier == 'thorough' or a != b:
            out.append(('moves_%s_%s' % (a, b), move_pairs, dict(k1=a, k2=b, tier=tier)))
    for k in ('xl', 'wl'):
        out.append(('inside_' + k, inside, dict(kind=k, tier=tier)))
    for b in SPLITS:
        out.append(('split_' + b.__name__, split, dict(build=b, tier=tier)))
        out.append(('acc_' + b.__name__, accessors, dict(build=b, tier=tier)))
    return out
