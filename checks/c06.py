"""C06: reduction of the linear dissipations preserves the behaviour."""
import sympy as sp
from vlib.env import import_pyphs, cramer_inverse
pyphs = import_pyphs()
cramer_inverse()
from vlib import cores  # noqa
from pyphs import Core  # noqa
S, F = cores.S, cores.F

META = dict(
    explanation='reduce_z is executed on cores with symbolic structure and laws. With the eliminated '
    'variables given by the (unique) solution of their own equations w_l = (M a)_l in the original '
    'system, z3 proves that every remaining flow of the reduced system, and its dissipated power, are '
    'those of the original, for all efforts, states, inputs and coefficients with a well-posed reduction.',
    bounds=['up to 2 storages, 4 dissipations (3 eliminated), 2 ports, 2 connectors; full and skew '
            'symbolic structure matrices'],
    outside=['structure matrices or observers that depend on an eliminated dissipation variable'],
    assumptions=['real arithmetic', 'the loop between the eliminated dissipations is well posed'],
    functions=['reduce_z', 'linear_nonlinear', 'inverse', 'Core.pd', 'Core.output', 'block accessors'])


def mk(laws, nx=1, ny=1, ncy=0, forced=(), skew=False, zero=(), nlx=False):
    c = Core('red')
    x = [S('x%d' % i) for i in range(1, nx + 1)]
    if nx:
        c.add_storages(x, sum(S('q%d' % i) * v**2 / 2 for i, v in enumerate(x)) +
                       (F('h')(x[0]) if nlx else 0))
    n = len(laws)
    w = [S('w%d' % i) for i in range(1, n + 1)]
    if n:
        c.add_dissipations(w, [l(w) for l in laws])
    cores.ports(c, ny)
    c.cu += [S('cu%d' % i) for i in range(ncy)]
    c.cy += [S('cy%d' % i) for i in range(ncy)]
    c.force_wnl = [w[i] for i in forced]
    return cores.fullM(c, skew=skew, zero=zero)


def lin(i, name='r'):
    return lambda w: S('%s%d' % (name, i + 1)) * w[i]


def nl(i):
    return lambda w: F('z%d' % (i + 1))(w[i])


# name: (args, expected eliminated indices or None when not specified)
CASES = {
    'one': (dict(laws=[lin(0)]), {0}),
    'inv': (dict(laws=[lambda w: w[0] / S('r1')], nx=2, ny=2), {0}),
    'two': (dict(laws=[lin(0), lin(1)]), {0, 1}),
    'two_skew': (dict(laws=[lin(0), lin(1)], nx=2, ny=1, skew=True), {0, 1}),
    'coupled': (dict(laws=[lambda w: S('a') * w[0] + S('b') * w[1], lambda w: S('c') * w[1]]), {0, 1}),
    'nl_first': (dict(laws=[nl(0), lin(1)], nlx=True, nx=2), {1}),
    'nl_mid': (dict(laws=[lin(0), nl(1), lin(2)], skew=True), {0, 2}),
    'nl_only': (dict(laws=[nl(0), nl(1)]), set()),
    'none': (dict(laws=[], nx=2), set()),
    'no_ports': (dict(laws=[lin(0), lin(1)], nx=2, ny=0, skew=True), {0, 1}),
    'no_stor': (dict(laws=[lin(0), lin(1)], nx=0, ny=2, skew=True), {0, 1}),
    'conn': (dict(laws=[lin(0), nl(1)], ncy=2), {0}),
    'state': (dict(laws=[lambda w: S('r1') * w[0] * (1 + S('x1')**2), lin(1)], skew=True), {0, 1}),
    'forced': (dict(laws=[lin(0), lin(1)], forced=(0,)), {1}),
    'forced_last': (dict(laws=[lin(0), lin(1), lin(2)], forced=(2,), skew=True), {0, 1}),
    'forced_two': (dict(laws=[lin(0), lin(1), lin(2)], forced=(0, 1), skew=True), {2}),
    'forced_all': (dict(laws=[lin(0), lin(1)], forced=(1, 0)), set()),
    'forced_nl': (dict(laws=[lin(0), nl(1), lin(2)], forced=(1,), skew=True), {0, 2}),
    'forced_mix': (dict(laws=[nl(0), lin(1), lin(2), nl(3)], forced=(3, 1), skew=True), {2}),
    'offset': (dict(laws=[lambda w: S('r1') * w[0] + S('E'), lin(1)]), {1}),
    'fed_by_nl': (dict(laws=[lambda w: S('r1') * w[0] + w[1]**3, lambda w: w[1]**3, lin(2)],
                       skew=True), {2}),
    'feeds_nl': (dict(laws=[lin(0), lambda w: w[1]**3 + S('k') * w[0], lin(2)], skew=True), None),
    'forced_coupled': (dict(laws=[lambda w: S('a') * w[0] + S('b') * w[1], lambda w: S('c') * w[1],
                                  lin(2)], forced=(1,), skew=True), None),
    'state_only': (dict(laws=[lambda w: S('k') * S('x1'), lin(1)], skew=True), {1}),
}
DEEP = {
    'three': (dict(laws=[lin(0), lin(1), lin(2)], nx=1, ny=1, skew=True), {0, 1, 2}),
    'two_full': (dict(laws=[lin(0), nl(1), lin(2)], nx=2, ny=2), {0, 2}),
    'four_forced': (dict(laws=[lin(0), lin(1), lin(2), lin(3)], nx=1, ny=1, skew=True,
                         forced=(1, 3)), {0, 2}),
    'coupled3': (dict(laws=[lambda w: S('a') * w[0] + S('b') * w[2], lin(1),
                            lambda w: S('c') * w[2] + S('d') * w[0]], skew=True), {0, 1, 2}),
}


def efforts(c):
    """effort (column) expressions of a core: gradient, laws, inputs"""
    return list(c.dxH()) + list(c.z) + list(c.u) + list(c.cu)


def names(c):
    return ['x:%s' % v for v in c.x] + ['w:%s' % v for v in c.w] + ['y:%s' % v for v in c.y] + \
        ['cy:%s' % v for v in c.cy]


def flows(c):
    e, n = efforts(c), c.dims.tot()
    return {k: sum(c.M[i, j] * e[j] for j in range(n)) for i, k in enumerate(names(c))}


def eliminate(c, gone):
    """{w: solution} of w = (M a)_w for the variables `gone`, by Cramer's rule on the original"""
    f = flows(c)
    gone = sorted(gone, key=str)
    eqs = [sp.expand(f['w:%s' % w] - w) for w in gone]
    zero = {w: 0 for w in gone}
    A = sp.Matrix([[sp.diff(e, w) for w in gone] for e in eqs])
    b = sp.Matrix([-e.subs(zero) for e in eqs])
    det = A.det(method='berkowitz')
    out = {}
    for i, w in enumerate(gone):
        Ai = A.copy()
        Ai[:, i] = b
        out[w] = Ai.det(method='berkowitz') / det
    return out, det


def reduce(s, case, tier):
    args, expected = dict(CASES, **DEEP)[case]
    c0, c = mk(**args), mk(**args)
    c.reduce_z()
    kept, all_ = [str(v) for v in c.w], [str(v) for v in c0.w]
    n = c.dims.tot()
    if not s.expect('shape', len(c.z) == len(c.w) == len(set(kept)) and set(kept) <= set(all_) and
                    c.M.shape == (n, n) and c.dims.wl() == 0 and sorted(map(str, c.x)) ==
                    sorted(map(str, c0.x)) and list(c.u) == list(c0.u) and list(c.y) == list(c0.y) and
                    list(c.cu) == list(c0.cu) and list(c.cy) == list(c0.cy), 'variables after reduction'):
        return
    gone = [w for w in c0.w if str(w) not in kept]
    s.expect('forced', not [w for w in gone if w in c0.force_wnl], 'excluded component was reduced')
    if expected is not None:
        s.expect('eliminated', {c0.w.index(w) for w in gone} == expected,
                 'eliminated components are exactly the linear ones that are not excluded: %s' % gone)
    laws = dict(zip(map(str, c0.w), c0.z))
    sol, det = eliminate(c0, gone) if gone else ({}, None)
    s.prove_all('laws', [('law_' + k, z, laws[k].subs(sol)) for k, z in zip(kept, c.z)],
                what='law of a dissipation that is kept')
    assume = [sp.Ne(det, 0)] if det is not None else []
    f0, f1 = flows(c0), flows(c)
    s.prove_all('flows', [(k, f1[k], f0[k].subs(sol)) for k in f1], assume=assume,
                what='flow of the reduced system vs original')
    if c0.dims.cy() == 0 and (len(gone) < 2 or args.get('skew')) and len(gone) < 3:
        # dissipated power: as reported, once every w is given its value in the system
        s.prove_eq('pd', c.pd(), c0.pd().subs(sol), assume=assume,
                   what='dissipated power of the reduced system')
    out = c.output()
    s.expect('outputs', len(out) == c.dims.y(), 'one output per port')
    s.prove_all('output', [('out_%s' % y, o, f1['y:%s' % y]) for y, o in zip(c.y, out)],
                what='output function')
    # a second reduction has nothing left to do
    c2 = c.__copy__()
    c2.reduce_z()
    if s.expect('twice_w', sorted(map(str, c2.w)) == sorted(kept), 'second reduction'):
        f2 = flows(c2)
        s.prove_all('twice', [(k, f2[k], f1[k]) for k in f1], what='second reduction')


def scenarios(tier):
    cs = list(CASES) + (list(DEEP) if tier == 'thorough' else [])
    return [('reduce_' + k, reduce, dict(case=k, tier=tier)) for k in cs]
