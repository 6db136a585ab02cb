"""C03: the discretised system is the one its configuration prescribes, and is power balanced."""
import sympy as sp
from vlib.env import import_pyphs
pyphs = import_pyphs()
from vlib import cores  # noqa
from pyphs import Core  # noqa

META = dict(
    explanation='core.to_method(config) is executed on symbolic cores for every gradient rule, theta '
    'and splitting; the gradient, structure, dissipation laws, outputs and dissipated power it '
    'exposes are compared with the definition of the scheme applied to the original core, and the '
    'discrete power balance is proved as an identity, for all values of state, increment, inputs, '
    'parameters, matrix entries and sample rate.',
    bounds=['cores of vlib/cores.py: at most 4 storages, 3 dissipations, 2 ports',
            'theta in {0, 1/4, 1/2, 1}; grad in {discret, theta, trapez}; split on/off',
            'discrete chain rule: increments outside the switching tolerance'],
    outside=['floating point rounding', 'larger systems'],
    assumptions=['real arithmetic'],
    functions=['Method.__init__', 'build_gradient_evaluation', 'build_structure_evaluation',
               'linear_nonlinear', 'monovar_multivar', 'explicit_implicit', 'output', 'pd'])


def snapshot(core):
    return dict(x=list(core.x), w=list(core.w), u=list(core.u), y=list(core.y), p=list(core.p),
                H=core.H, z=list(core.z), M=sp.Matrix(core.M), obs=dict(core.observers),
                subs=dict(core.subs))


def resolve(subs):
    """closed substitution dictionary"""
    out = dict(subs)
    for _ in range(len(out) + 1):
        out = {k: sp.sympify(v).subs(out) for k, v in out.items()}
    return out


def rules(core, config):
    """what the configuration prescribes for a quantity depending on the state"""
    x, dx = core['x'], [cores.S('d' + str(v)) for v in core['x']]
    if config['grad'] == 'trapez':
        end = dict(zip(x, [a + b for a, b in zip(x, dx)]))
        return lambda e: (e + e.subs(end, simultaneous=True)) / 2
    th = sp.Rational(config['theta'])
    at = dict(zip(x, [a + th * b for a, b in zip(x, dx)]))
    return lambda e: e.subs(at, simultaneous=True)


def scheme(s, build, grad, theta, split, tier):
    core = build()
    orig = snapshot(core)
    config = dict(grad=grad, theta=float(theta), split=split)
    m = core.to_method(config=dict(config))
    after = snapshot(core)
    s.expect('source_unchanged', orig == after, 'the original core was modified: %s' %
             [k for k in orig if orig[k] != after[k]])
    cl = resolve({k: v for k, v in orig['subs'].items() if not isinstance(v, (int, float))})

    def norm(e):
        return sp.sympify(e).subs(cl)
    x0, w0, u0, y0 = orig['x'], orig['w'], orig['u'], orig['y']
    names = lambda l: sorted(map(str, l))  # noqa
    same = all(names(a) == names(b) for a, b in ((m.x, x0), (m.w, w0), (m.u, u0), (m.y, y0),
                                                 (m.p, orig['p'])))
    if not s.expect('variables', same, 'variables lost or duplicated'):
        return
    s.expect('dims', len(m.dxH()) == len(x0) and len(m.z) == len(w0) and
             len(m.output()) == len(y0), 'dimensions of gradient, dissipations, outputs')
    px = [m.x.index(v) for v in x0]
    pw = [m.w.index(v) for v in w0]
    pu = [m.u.index(v) for v in u0]
    s.expect('ports', [str(m.y[i]) for i in pu] == [str(v) for v in y0], 'u and y stay paired')
    s.expect('dx', [str(v) for v in m.dx()] == ['d' + str(v) for v in m.x], 'increment names')
    nx, nw = len(x0), len(w0)
    n = m.dims.tot()
    s.expect('dimM', m.M.shape == (n, n) == orig['M'].shape, 'dimension of M')
    perm = px + [nx + i for i in pw] + [nx + nw + i for i in pu]
    dxH = [m.dxH()[i] for i in px]
    z = [m.z[i] for i in pw]
    dx = [cores.S('d' + str(v)) for v in x0]
    H = norm(orig['H'])
    tol = sp.Rational(1, 10**9)
    big = [sp.Or(d > tol, d < -tol) for d in dx]
    pos = [cores.S(v) for v in ('C1', 'L1', 'L')]
    # --- gradient
    if grad == 'discret':
        end = dict(zip(x0, [a + b for a, b in zip(x0, dx)]))
        s.prove_eq('chain', sum(g * d for g, d in zip(dxH, dx)),
                   H.subs(end, simultaneous=True) - H, assume=big,
                   what='discrete gradient times increment vs energy variation')
        for i in range(nx):
            s.prove_eq('grad0_%d' % i, dxH[i], sp.diff(H, x0[i]),
                       assume=[sp.Eq(d, 0) for d in dx], what='gradient at zero increment')
            s.prove_defined('defined_%d' % i, dxH[i], assume=[v > 0 for v in pos if v in H.free_symbols])
    elif grad == 'theta':
        at = dict(zip(x0, [a + sp.Rational(theta) * b for a, b in zip(x0, dx)]))
        for i in range(nx):
            s.prove_eq('grad_%d' % i, dxH[i], sp.diff(H, x0[i]).subs(at, simultaneous=True))
    else:
        end = dict(zip(x0, [a + b for a, b in zip(x0, dx)]))
        for i in range(nx):
            g = sp.diff(H, x0[i])
            s.prove_eq('grad_%d' % i, dxH[i], (g + g.subs(end, simultaneous=True)) / 2)
    # --- structure and dissipation
    ev = rules(orig, config)
    gsub = {cores.S('g' + str(v)): g for v, g in zip(x0, dxH)}
    M0 = orig['M']
    uses_g = bool(set(gsub) & (M0.free_symbols | set().union(*[v.free_symbols for v in orig['z']])))
    pre = big if uses_g else ()
    pairs = []
    for i in range(n):
        for j in range(n):
            ref = ev(norm(M0[i, j])).subs(gsub, simultaneous=True)
            pairs.append(('M_%d_%d' % (i, j), m.M[perm[i], perm[j]], ref))
    s.prove_all('M', pairs, assume=pre, what='structure matrix at the evaluation point')
    s.prove_all('z', [('z_%d' % i, z[i], ev(norm(orig['z'][i])).subs(gsub, simultaneous=True))
                      for i in range(nw)], assume=pre, what='dissipation law at evaluation point')
    # --- output and power balance of the discretised system as exposed
    u = orig['u']
    a = dxH + z + u
    P = sp.Matrix(n, n, lambda i, j: m.M[perm[i], perm[j]])
    Ma = [sum(P[i, j] * a[j] for j in range(n)) for i in range(n)]
    y = m.output()
    s.prove_all('y', [('y_%d' % i, y[pu[i]], Ma[nx + nw + i]) for i in range(len(u))],
                what='output equation')
    fs = sp.Symbol(str(m.fs), real=True)
    total = sum(fs * d * g for d, g in zip(dx, dxH)) + m.pd() + sum(
        ui * y[pu[i]] for i, ui in enumerate(u))
    F = [fs * d for d in dx] + list(w0)
    s.prove_eq('balance', total, sum(f * (l - r) for f, l, r in zip(a, F, Ma[:nx + nw])),
               what='stored + dissipated + port power vs 0 on solutions')
    s.prove_all('dtx', [('dtx_%d' % i, m.dtx()[px[i]], fs * dx[i]) for i in range(nx)])
    # --- observers
    o = {str(k): v for k, v in m.observers.items()}
    s.expect('obs', sorted(o) == sorted(map(str, orig['obs'])), 'observers kept')
    s.prove_all('observers', [('o_' + str(k), o[str(k)], norm(v)) for k, v in orig['obs'].items()])


def scenarios(tier):
    out = []
    thetas = {'discret': (0, sp.Rational(1, 2)), 'theta': (0, sp.Rational(1, 2), 1),
              'trapez': (0,)}
    if tier != 'quick':
        thetas = {'discret': (0, sp.Rational(1, 4), sp.Rational(1, 2), 1),
                  'theta': (0, sp.Rational(1, 4), sp.Rational(1, 2), 1), 'trapez': (0, 1)}
    for b in cores.ALL:
        for grad, ths in thetas.items():
            for th in ths:
                for split in (False, True):
                    name = '%s_%s_%s_%s' % (b.__name__, grad, str(th).replace('/', 'o'),
                                            'split' if split else 'full')
                    out.append((name, scheme, dict(build=b, grad=grad, theta=th, split=split,
                                                   tier=tier)))
    return out
