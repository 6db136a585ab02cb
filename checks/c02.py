"""C02: the gradient discretisations satisfy their defining identities."""
import sympy as sp
from vlib.env import import_pyphs
pyphs = import_pyphs()
from pyphs.numerics.numerical_method import _discrete_calculus as dc  # noqa

META = dict(
    explanation='The real gradient constructors are executed on symbolic storage functions '
    '(undefined functions, polynomials with symbolic coefficients, transcendental functions) with '
    'symbolic state, increment, tolerance and theta; each defining identity is an SMT query over '
    'all real values of these symbols.',
    bounds=['1 to 3 (thorough 4) state variables', 'polynomial storage functions of degree <= 4',
            'tolerance band: |coefficients|,|x| <= 1 and tolerance in (0, 1/100]'],
    outside=['floating point rounding', 'more state variables'],
    assumptions=['expressions are defined at the point (no division by zero in the storage '
                 'function itself)', 'arithmetic over the reals'],
    functions=['discrete_gradient_monovar', 'discrete_gradient_multivar', 'gradient_theta',
               'gradient_trapez'])


def syms(n):
    return ([sp.Symbol('x%d' % i, real=True) for i in range(1, n + 1)],
            [sp.Symbol('dx%d' % i, real=True) for i in range(1, n + 1)])


def families(n, tier):
    x, dx = syms(n)
    a, b = sp.symbols('a b', real=True)
    sep, cpl = {}, {}
    sep['undef'] = sum(sp.Function('h%d' % i)(xi) for i, xi in enumerate(x, 1))
    sep['undef_weighted'] = sum(sp.Function('h%d' % i)(xi) * sp.Symbol('c%d' % i, real=True)
                                for i, xi in enumerate(x, 1)) + a
    sep['poly4'] = sum(sum(sp.Symbol('q%d%d' % (i, k), real=True) * xi**k for k in range(5))
                       for i, xi in enumerate(x, 1))
    sep['transc'] = sum([sp.cosh(a * xi), sp.cos(xi) + xi**2, sp.exp(b * xi), sp.log(1 + xi**2)][i % 4]
                        for i, xi in enumerate(x))
    cpl['undef'] = sp.Function('h')(*x)
    if n > 1:
        cpl['quad'] = sum(sp.Symbol('Q%d%d' % (i, j), real=True) * x[i] * x[j] / 2
                          for i in range(n) for j in range(i + 1))
        cpl['poly'] = (x[0] + a * x[1])**2 * x[0]**2 / 4 + b * sum(xi**4 for xi in x) + x[-1] * x[0]
        cpl['ratio'] = x[0]**2 / (1 + x[1]**2) + sum(x[2:]) ** 2 * a
        cpl['transc'] = sp.exp(a * x[0] * x[1]) + sp.cos(x[-1] - x[0])
    return x, dx, sep, cpl


def delta(H, x, dx):
    return H.subs(dict(zip(x, [a + b for a, b in zip(x, dx)])), simultaneous=True) - H


def outside_band(dx, tol):
    return [tol > 0] + [sp.Or(d > tol, d < -tol) for d in dx]


def mono(s, n, fam, tier):
    x, dx, sep, _ = families(n, tier)
    H = sep[fam]
    tol = sp.Symbol('tol', real=True)
    g = dc.discrete_gradient_monovar(H, x, dx, numtol=tol)
    s.expect('length', len(g) == n, 'one component per state variable')
    Hi = [H - H.subs(xi, 0) for xi in x]
    for i in range(n):
        # each component is a chain rule of its own: H is separable
        d_i = H.subs(x[i], x[i] + dx[i]) - H
        s.prove_eq('chain_%d' % i, g[i] * dx[i], d_i,
                   assume=[tol > 0, sp.Or(dx[i] > tol, dx[i] < -tol)],
                   what='discrete gradient times increment vs storage variation')
        s.prove_eq('at_zero_%d' % i, g[i], sp.diff(H, x[i]), assume=[tol > 0, sp.Eq(dx[i], 0)])
        s.prove_defined('defined_%d' % i, g[i], assume=[tol > 0])
    s.prove_eq('chain_total', sum(gi * d for gi, d in zip(g, dx)), delta(H, x, dx),
               assume=outside_band(dx, tol))


def mono_band(s, tier):
    """inside the tolerance band the chain rule holds up to K*tol**2"""
    (x,), (dx,) = syms(1)
    q = sp.symbols('q1:5', real=True)
    H = sum(c * x**(k + 1) for k, c in enumerate(q))
    tol = sp.Symbol('tol', real=True)
    g = dc.discrete_gradient_monovar(H, [x], [dx], numtol=tol)[0]
    res = g * dx - delta(H, [x], [dx])
    cube = [sp.And(c <= 1, c >= -1) for c in q + (x,)]
    band = [tol > 0, tol <= sp.Rational(1, 100), dx <= tol, dx >= -tol]
    s.prove_rel('band', sp.And(res <= 20 * tol**2, res >= -20 * tol**2), assume=cube + band)


def default_tol(s, tier):
    """the default tolerance is a small positive constant"""
    (x,), (dx,) = syms(1)
    g = dc.discrete_gradient_monovar(sp.Function('h')(x), [x], [dx])[0]
    big = sp.Rational(1, 10**6)
    s.prove_eq('mono', g * dx, sp.Function('h')(x + dx) - sp.Function('h')(x),
               assume=[sp.Or(dx > big, dx < -big)])
    x, dx = syms(2)
    h = sp.Function('h')(*x)
    g = dc.discrete_gradient_multivar(h, x, dx)
    s.prove_eq('multi', sum(a * b for a, b in zip(g, dx)), delta(h, x, dx),
               assume=[sum(d**2 for d in dx) > big**2])


def multi(s, n, fam, tier):
    x, dx, _, cpl = families(n, tier)
    H = cpl[fam]
    tol = sp.Symbol('tol', real=True)
    g = dc.discrete_gradient_multivar(H, x, dx, numtol=tol)
    s.expect('length', len(g) == n, 'one component per state variable')
    s.prove_eq('chain', sum(a * b for a, b in zip(g, dx)), delta(H, x, dx),
               assume=[tol > 0, sum(d**2 for d in dx) > tol**2])
    half = {xi: xi + d / 2 for xi, d in zip(x, dx)}
    for i in range(n):
        s.prove_eq('at_zero_%d' % i, g[i], sp.diff(H, x[i]),
                   assume=[tol > 0] + [sp.Eq(d, 0) for d in dx])
        if fam != 'ratio':
            s.prove_defined('defined_%d' % i, g[i], assume=[tol > 0])
        if fam != 'undef':
            # inside the band: the midpoint gradient
            s.prove_eq('band_%d' % i, g[i], sp.diff(H, x[i]).subs(half, simultaneous=True),
                       assume=[tol > 0, sum(d**2 for d in dx) < tol**2])


def symmetric(s, n, tier):
    """time reversal: the discrete gradient between x and x+dx is the one between x+dx and x"""
    x, dx, sep, cpl = families(n, tier)
    tol = sp.Symbol('tol', real=True)
    swap = dict([(xi, xi + d) for xi, d in zip(x, dx)] + [(d, -d) for d in dx])
    g = dc.discrete_gradient_monovar(sep['poly4'], x, dx, numtol=tol)
    for i in range(n):
        s.prove_eq('mono_%d' % i, g[i].subs(swap, simultaneous=True), g[i],
                   assume=outside_band(dx, tol))
    if n > 1:
        g = dc.discrete_gradient_multivar(cpl['poly'], x, dx, numtol=tol)
        for i in range(n):
            s.prove_eq('multi_%d' % i, g[i].subs(swap, simultaneous=True), g[i],
                       assume=[tol > 0, sum(d**2 for d in dx) > tol**2])


def theta(s, n, tier):
    x, dx, sep, cpl = families(n, tier)
    th = sp.Symbol('theta', real=True)
    at = {xi: xi + th * d for xi, d in zip(x, dx)}
    for fam, H in sorted(list(sep.items()) + [('c_' + k, v) for k, v in cpl.items()]):
        g = dc.gradient_theta(H, x, dx, theta=th)
        t = dc.gradient_trapez(H, x, dx)
        s.expect('length_' + fam, len(g) == n and len(t) == n, 'one component per state variable')
        for i in range(n):
            ref = sp.diff(H, x[i])
            s.prove_eq('theta_%s_%d' % (fam, i), g[i], ref.subs(at, simultaneous=True))
            end = ref.subs({xi: xi + d for xi, d in zip(x, dx)}, simultaneous=True)
            s.prove_eq('trapez_%s_%d' % (fam, i), t[i], (ref + end) / 2)


def theta_default(s, tier):
    x, dx, sep, cpl = families(2, tier)
    H = cpl['poly']
    for i, gi in enumerate(dc.gradient_theta(H, x, dx)):
        s.prove_eq('explicit_%d' % i, gi, sp.diff(H, x[i]))


def no_mutation(s, tier):
    """the arguments are left as they were"""
    x, dx, sep, cpl = families(2, tier)
    x0, dx0 = list(x), list(dx)
    for f in (dc.discrete_gradient_monovar, dc.discrete_gradient_multivar, dc.gradient_theta,
              dc.gradient_trapez):
        f(cpl['quad'], x, dx)
    s.expect('args', x == x0 and dx == dx0, 'argument lists were modified')
    s.prove_eq('x', sum(x), sum(x0))


def scenarios(tier):
    out = [('mono_band', mono_band, dict(tier=tier, timeout=60)),
           ('default_tol', default_tol, dict(tier=tier)),
           ('theta_default', theta_default, dict(tier=tier)),
           ('no_mutation', no_mutation, dict(tier=tier))]
    ns = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    for n in ns:
        for fam in families(n, tier)[2]:
            out.append(('mono_%s_%d' % (fam, n), mono, dict(n=n, fam=fam, tier=tier)))
        for fam in families(n, tier)[3]:
            out.append(('multi_%s_%d' % (fam, n), multi, dict(n=n, fam=fam, tier=tier)))
        out.append(('theta_%d' % n, theta, dict(n=n, tier=tier)))
        out.append(('symmetric_%d' % n, symmetric, dict(n=n, tier=tier)))
    return out
