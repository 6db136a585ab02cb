"""C13: numerical evaluation returns the value of the symbolic expressions."""
import itertools
import numpy
from vlib import num
num.install()
from vlib.env import import_pyphs  # noqa
pyphs = import_pyphs(DTYPE=numpy.object_, THEANO=False)
import sympy as sp  # noqa
from vlib import cores  # noqa
from pyphs import Core, Evaluation  # noqa
from pyphs.numerics.tools import lambdify  # noqa
from pyphs.core.maths import gradient, jacobian, hessian  # noqa
num.proxy_modules()
S, F = cores.S, cores.F

META = dict(
    explanation='The functions built by lambdify and Evaluation (the code generated by sympy included) '
    'are executed on symbolic reals, every feasible branch of piecewise expressions being explored; z3 '
    'proves that each value returned is the value of the symbolic expression at the same arguments, '
    'parameters being given their numbers. Arguments, orders, scalar and vectorised calls are covered. '
    'gradient, jacobian and hessian are compared with derivatives obtained from finite differences of '
    'polynomials with symbolic coefficients (exact limit) and from the rules of the elementary '
    'functions.',
    bounds=['all real arguments; vectors of length 0 to 3; expressions of up to 4 arguments in every '
            'order; the cores of vlib/cores.py and of checks/c13.py'],
    outside=['the theano backend (not installed)', 'floating point rounding'],
    assumptions=['real arithmetic; exp, sin, ... are uninterpreted functions'],
    functions=['lambdify', 'numpy_lambdify', 'Evaluation.build', 'Evaluation.expr_to_numeric',
               'scalar_expr_to_numeric', 'vector_expr_to_numeric', 'pyphs_vectorize', 'gradient',
               'jacobian', 'hessian'])

a, b, c, d = map(S, 'abcd')
x, y = S('x'), S('y')


def flat(v):
    """nested lists of the entries of a returned array"""
    v = numpy.asarray(v, dtype=object)
    return v.item() if v.shape == () else [flat(i) for i in v]


def shape(v):
    return numpy.asarray(v, dtype=object).shape


def value(expr, env):
    """the same nesting, from the symbolic expression"""
    if isinstance(expr, sp.MatrixBase):
        return [[num.evaluate(expr[i, j], env) for j in range(expr.cols)] for i in range(expr.rows)]
    if isinstance(expr, (list, tuple)):
        return [num.evaluate(sp.sympify(e), env) for e in expr]
    return num.evaluate(sp.sympify(expr), env)


def pair(chk, key, got, want):
    """entrywise obligations; a mismatch of shapes is a fact that fails"""
    if isinstance(want, list):
        ok = isinstance(got, list) and len(got) == len(want)
        chk.expect(key + '_shape', ok, 'shape of the value returned for %s' % key)
        if ok:
            for i, (g, w) in enumerate(zip(got, want)):
                pair(chk, '%s_%d' % (key, i), g, w)
        return
    if isinstance(got, list):
        chk.expect(key + '_shape', False, 'array returned for a scalar %s' % key)
        return
    chk.eq(key, got, want, 'value of %s' % key)


# ------------------------------------------------------------------ lambdify
EXPRS = {
    'poly': a * b**2 - 3 * c + a / 2,
    'rational': (a - b) / (c**2 + 1),
    'quotient': a / (b - c),
    'number': sp.Integer(3),
    'symbol': c,
    'int': 3,
    'float': .25,
    'trans': sp.exp(a - b) * sp.sin(c) + sp.tanh(a),
    'transc': sp.cosh(b * c) / sp.cos(a) - sp.sinh(a + c),
    'pieces': sp.Piecewise((a, a > b), (b**2, True)),
    'pieces3': sp.Piecewise((a, a < -1), (b, a <= c), (c * a, True)),
    'absval': sp.Abs(a) * b - c,
    'sgn': sp.sign(a) * b + c,
    'max': sp.Max(a, b, c) + sp.Min(a, b),
    'heavy': sp.Piecewise((sp.exp(a), a > 0), (1 + a, True)) + b,
    'list': [a * b, c - 1, sp.Integer(2), b],
    'list1': [a * b],
    'list0': [],
    'tuple': (c, b, a),
    'matrix': sp.SparseMatrix([[a * b, 0], [c, 1 - a]]),
    'row': sp.SparseMatrix([[a, b, 3 * c]]),
    'col': sp.SparseMatrix([[a - b], [0]]),
    'mat1': sp.SparseMatrix([[c * a]]),
}


def lamb(s, name, tier):
    expr = EXPRS[name]
    orders = [p for p in itertools.permutations((a, b, c, d))] if tier == 'thorough' else \
        [(a, b, c), (c, a, b), (d, c, b, a), (b, c, d, a)]

    def case(k, order):
        def body(chk):
            before = str(expr)
            args = list(order)
            f = lambdify(args, expr, theano=False)
            env = {str(v): chk.inp(str(v)) for v in order}
            out = f(*[env[str(v)] for v in order])
            pair(chk, 'o', flat(out), value(expr, env))
            chk.expect('args', args == list(order) and str(expr) == before,
                       'the arguments of lambdify are left unchanged')
            # arrays as arguments (0-dimensional), as used by Evaluation and numerical cores
            out = f(*[numpy.array(env[str(v)], dtype=object) for v in order])
            pair(chk, 'n', flat(out), value(expr, env))
        num.prove_paths(s, body, tag='o%d_' % k)
    for k, order in enumerate(orders):
        case(k, order)


def lamb_subs(s, name, tier):
    expr = EXPRS[name]

    def case(k, subs, order):
        def body(chk):
            given = dict(subs)
            f = lambdify(list(order), expr, subs=given, theano=False)
            env = {str(v): chk.inp(str(v)) for v in order}
            full = dict(env)
            full.update({str(v): num._coerce(e) for v, e in subs.items()})
            pair(chk, 'v', flat(f(*[env[str(v)] for v in order])), value(expr, full))
            chk.expect('subs', given == subs, 'the substitutions given are left unchanged')
        num.prove_paths(s, body, tag='s%d_' % k)
    for k, (subs, order) in enumerate([({c: 2.}, (b, a)), ({a: .5, b: -3}, (c,)),
                                       ({a: 1., b: 2, c: 4.}, ()), ({}, (c, a, b)),
                                       ({a: 3., d: 1.}, (b, c)), ({b: 0.25, c: -2}, (d, a))]):
        case(k, subs, order)

    def simp(chk):
        f = lambdify([c, b, a], expr, simplify=True, theano=False)
        env = {v: chk.inp(v) for v in 'abc'}
        pair(chk, 'v', flat(f(env['c'], env['b'], env['a'])), value(expr, env))
    if name not in ('trans', 'transc', 'tuple'):
        num.prove_paths(s, simp, tag='simp_')


def missing(s, tier):
    """a symbol without a value is refused rather than evaluated"""
    for k, e in EXPRS.items():
        try:
            free = set().union(*[sp.sympify(v).free_symbols for v in
                                 (e if isinstance(e, (list, tuple)) else [e])])
        except Exception:
            continue
        for v in sorted(free, key=str):
            try:
                lambdify(sorted(free - {v}, key=str), e, theano=False)
                s.expect('missing_%s_%s' % (k, v), False, 'symbol %s without a value accepted' % v)
            except AttributeError:
                s.expect('missing_%s_%s' % (k, v), True, '')


# ---------------------------------------------------------------- Evaluation
def plain():
    k = Core('plain')
    xs = [S('x1'), S('x2'), S('x3')]
    k.add_storages(xs, S('q1') * xs[0]**2 / 2 + xs[1]**4 / 4 + S('q3') * xs[2]**2 * xs[0])
    k.add_dissipations([S('w1'), S('w2')], [S('r1') * S('w1') * (1 + xs[2]**2), S('w2')**3 + S('p1') * S('w1')])
    cores.ports(k, 2)
    k.add_parameters(S('p1'))
    cores.fullM(k, skew=True)
    n = k.dims.tot()
    m = sp.Matrix(k.M)
    m[0, 1] += xs[0] * S('p1')
    m[1, 0] -= xs[0] * S('p1')
    m[1, 1] -= xs[1]**2
    m[2, n - 1] += S('u1')
    k.M = sp.SparseMatrix(m)
    k.subs.update({S('q1'): 2., S('q3'): .5, S('r1'): 4.})
    k.subs.update({s_: i + 1. for i, s_ in enumerate(sorted(
        [v for v in k.M.free_symbols if str(v).startswith('m')], key=str))})
    return k


def linear():
    k = cores.lin_skew()
    k.subs.update({S('C1'): 2., S('L1'): S('tau') * S('C1'), S('tau'): 3., S('r1'): .5})
    k.add_parameters(S('r2'))
    k.subs.update({v: 1. + i for i, v in enumerate(sorted(
        [v for v in k.M.free_symbols if str(v).startswith('m')], key=str))})
    return k


def observed():
    k = cores.observers(poly=True)
    k.subs.update({S('q1'): 3., S('p9'): 2.})
    k.subs.update({v: 1. + i for i, v in enumerate(sorted(
        [v for v in k.M.free_symbols if str(v).startswith('m')], key=str))})
    return k


def stored():
    k = Core('stored')
    k.add_storages([S('x1'), S('x2')], sp.exp(S('x1')) - S('x1') + S('x2')**2 / S('L'))
    cores.ports(k, 1)
    k.init_M()
    k.set_Jxx([[0, -1], [1, 0]])
    k.set_Jxy([[S('x2')], [0]])
    k.subs.update({S('L'): 2.})
    return k


def dissip():
    k = Core('dissip')
    k.add_dissipations([S('w1'), S('w2')], [sp.sinh(S('w1') / S('v')), sp.Piecewise((S('w2'), S('w2') > 0), (0, True))])
    cores.ports(k, 2)
    k.init_M()
    k.set_Jwy([[1, S('u2')], [0, -1]])
    k.subs.update({S('v'): .5})
    return k


CORES = dict(plain=plain, linear=linear, observed=observed, stored=stored, dissip=dissip)


def resolved(core):
    """numbers of the parameters, from the substitutions, in any order of dependence"""
    out = {}
    subs = {str(k): sp.sympify(v) for k, v in core.subs.items()}
    while len(out) < len(subs):
        n = len(out)
        for k, v in subs.items():
            if k not in out and {str(f) for f in v.free_symbols} <= set(out):
                out[k] = v.xreplace({f: out[str(f)] for f in v.free_symbols})
        if len(out) == n:
            raise RuntimeError('circular substitutions')
    return out


BLOCKS = ('M', 'J', 'R', 'Jxx', 'Jxw', 'Jxy', 'Jww', 'Jwy', 'Jyy', 'Rxx', 'Rww', 'Rwy', 'Mxx', 'Mwx', 'Myw')


def reference(core):
    """symbolic quantity by name, from the definition"""
    n = core.dims.tot()
    M = sp.Matrix(core.M)
    lens = [('x', len(core.x)), ('w', len(core.w)), ('y', len(core.y))]
    at, p = {}, 0
    for k, l in lens:
        at[k] = (p, p + l)
        p += l
    ref = dict(H=core.H, z=list(core.z), x=list(core.x), w=list(core.w), u=list(core.u),
               dxH=[sp.diff(core.H, v) for v in core.x], o=list(core.observers.values()))
    for b_ in BLOCKS:
        m = dict(M=M, J=(M - M.T) / 2, R=-(M + M.T) / 2)[b_[0]]
        if len(b_) == 3:
            (r0, r1), (c0, c1) = at[b_[1]], at[b_[2]]
            m = m[r0:r1, c0:c1]
        if m.rows and m.cols:
            ref[b_] = m
    return ref


def evaluation(s, name, tier):
    mk = CORES[name]
    ref = reference(mk())
    core = mk()
    num_subs = resolved(mk())
    order = [str(v) for v in core.x] + ['d' + str(v) for v in core.x] + [str(v) for v in core.w] + \
        [str(v) for v in core.u] + [str(v) for v in core.p] + [str(v) for v in core.observers]
    before = str((core.H, core.z, core.M, core.x, core.w, sorted(map(str, core.subs.items())),
                  sorted(map(str, core.observers.items())), core.p, core.u))
    names = sorted(ref)
    full = {}
    for vec in (True, False):
        full[vec] = Evaluation(core, names=names, vectorize=vec)
    full['all'] = core.to_evaluation()
    after = str((core.H, core.z, core.M, core.x, core.w, sorted(map(str, core.subs.items())),
                 sorted(map(str, core.observers.items())), core.p, core.u))
    s.expect('untouched', before == after, 'the core is left unchanged by the evaluation')
    s.expect('order', [str(v) for v in full[True].args()] == order, 'vector of arguments')
    for n in names:
        if n not in ('x', 'w', 'u'):
            s.expect('all_' + n, n in ('o', 'Jyy') or hasattr(full['all'], n), 'quantity %s is built by default' % n)

    def one(n):
        # numeric parameters, exactly; observers stand for their own symbols except in themselves
        e = ref[n]
        sub = {v: num_subs[str(v)] for v in getattr(sp.Matrix([e]) if isinstance(e, list) else sp.Matrix([e]),
                                                    'free_symbols') if str(v) in num_subs}
        if isinstance(e, list):
            e = [sp.sympify(v).xreplace(sub) for v in e]
        elif isinstance(e, sp.MatrixBase):
            e = e.applyfunc(lambda v: v.xreplace(sub))
        else:
            e = sp.sympify(e).xreplace(sub)

        def body(chk):
            for which in ((False, True, 'all') if n in ('H', 'dxH', 'z', 'M') else (False, True)):
                ev = full[which]
                f, args, inds = (getattr(ev, n + t) for t in ('', '_args', '_inds'))
                chk.expect('%s_%s_inds' % (which, n), [order[i] for i in inds] == [str(v) for v in args],
                           'indices of the arguments of %s' % n)
                free = set().union(*[sp.sympify(v).free_symbols for v in
                                     (e if isinstance(e, (list, sp.MatrixBase)) else [e])])
                chk.expect('%s_%s_free' % (which, n), {str(v) for v in args} >= {str(v) for v in free},
                           'arguments of %s: %s' % (n, args))
                sc = {str(v): chk.inp(str(v)) for v in args}
                pair(chk, '%s_%s' % (which, n), flat(f(*[sc[str(v)] for v in args])), value(e, sc))
                if which is False:
                    continue
                for N in ((1, 2) if tier == 'quick' else (1, 2, 3)):
                    if isinstance(e, list) and not e or isinstance(e, sp.MatrixBase) and N == 1:
                        continue
                    vals = [{str(v): chk.inp('%s_%d' % (v, k)) for v in args} for k in range(N)]
                    cols = []
                    for v in args:
                        col = numpy.empty(N, dtype=object)
                        for k in range(N):
                            col[k] = vals[k][str(v)]
                        cols.append(col)
                    if not args:
                        cols = [numpy.zeros(N)]
                    out = f(*cols)
                    pair(chk, '%s_%s_v%d' % (which, n, N), flat(out), [value(e, v) for v in vals])
        num.prove_paths(s, body, tag=n + '_', max_paths=600)
    for n in names:
        one(n)


def slices(s, tier):
    core, ref = plain(), reference(plain())
    sub = {S(k): v for k, v in resolved(plain()).items()}
    for n, sl in itertools.product(('dxH', 'z', 'x', 'u'), (slice(0, 1), slice(1, None), slice(None),
                                                           slice(None, None, 2))):
        ev = core.to_evaluation(names=[n], vslice=sl)
        e = [sp.sympify(v).xreplace(sub) for v in ref[n][sl]]

        def body(chk):
            f, args = getattr(ev, n), getattr(ev, n + '_args')
            env = {str(v): chk.inp(str(v)) for v in args}
            pair(chk, n, flat(f(*[env[str(v)] for v in args])), value(e, env))
            cols = [numpy.array([env[str(v)]] * 2, dtype=object) for v in args]
            pair(chk, n + '_v', flat(f(*cols)), [value(e, env)] * 2)
        num.prove_paths(s, body, tag='%s_%s_' % (n, str(sl).replace(' ', '')))


# ------------------------------------------------------------------ calculus
def monomials(vs, deg):
    return [sp.Mul(*[v**k for v, k in zip(vs, ks)]) for ks in itertools.product(range(deg + 1), repeat=len(vs))
            if sum(ks) <= deg]


def poly(tag, vs, deg):
    ms = monomials(vs, deg)
    return sum(S('%s%d' % (tag, i)) * m for i, m in enumerate(ms)), ms


def fd(e, v):
    """derivative of a polynomial: the coefficient of h in e(v+h) (exact limit of the quotient)"""
    h = S('hh')
    return sp.expand(e.xreplace({v: v + h})).coeff(h, 1)


def calculus(s, n, deg, tier):
    vs = [S('v%d' % i) for i in range(n)]
    e, ms = poly('k', vs, deg)
    for order in itertools.permutations(range(n)):
        xs = [vs[i] for i in order]
        tag = ''.join(map(str, order))
        for simp in ((False, True) if n <= 2 and deg <= 2 else (False,)):
            g = gradient(e, xs, simplify=simp)
            s.expect('g_shape' + tag, len(g) == n, 'one entry per variable')
            s.prove_all('grad_%s_%s' % (tag, simp), [('g%d' % i, g[i], fd(e, v)) for i, v in enumerate(xs)])
            h = hessian(e, xs, simplify=simp)
            s.expect('h_shape' + tag, h.shape == (n, n), 'square hessian')
            s.prove_all('hess_%s_%s' % (tag, simp), [('h%d%d' % (i, j), h[i, j], fd(fd(e, v), w))
                                                     for i, v in enumerate(xs) for j, w in enumerate(xs)])
        fs = [poly('f%d_' % k, vs, deg)[0] for k in range(2)] + [S('cst')]
        for m in range(len(fs) + 1):
            j = jacobian(fs[:m], xs)
            s.expect('j_shape%d' % m + tag, j.shape == (m, n), 'shape of the jacobian')
            s.prove_all('jac%d_%s' % (m, tag), [('j%d%d' % (i, k), j[i, k], fd(fs[i], v))
                                                for i in range(m) for k, v in enumerate(xs)])


def elementary(s, tier):
    """chain rule on elementary functions (rules written out)"""
    u = S('k') * x**2 + x * y
    for name, f, df in (('exp', sp.exp, sp.exp), ('sin', sp.sin, sp.cos), ('cos', sp.cos, lambda v: -sp.sin(v)),
                        ('sinh', sp.sinh, sp.cosh), ('cosh', sp.cosh, sp.sinh),
                        ('log', sp.log, lambda v: 1 / v), ('tanh', sp.tanh, lambda v: 1 - sp.tanh(v)**2)):
        e = f(u) * y
        g = gradient(e, [y, x])
        s.prove_all(name, [('dy', g[0], f(u) + y * df(u) * x), ('dx', g[1], y * df(u) * (2 * S('k') * x + y))])
    e = sp.Piecewise((x**2, x > 0), (-x**3 * y, True))
    g = gradient(e, [x, y])
    s.prove_all('piecewise', [('dx', g[0], sp.Piecewise((2 * x, x > 0), (-3 * x**2 * y, True))),
                              ('dy', g[1], sp.Piecewise((0, x > 0), (-x**3, True)))])


def scenarios(tier):
    out = [('lambdify_' + k, lamb, dict(name=k, tier=tier)) for k in EXPRS]
    out += [('subs_' + k, lamb_subs, dict(name=k, tier=tier)) for k in EXPRS if k not in ('int', 'float')]
    out += [('missing', missing, dict(tier=tier)), ('slices', slices, dict(tier=tier)),
            ('elementary', elementary, dict(tier=tier))]
    out += [('evaluation_' + k, evaluation, dict(name=k, tier=tier)) for k in CORES]
    out += [('calculus_%d_%d' % (n, g), calculus, dict(n=n, deg=g, tier=tier))
            for n, g in [(1, 3), (2, 3), (3, 2)] + ([(3, 3), (4, 2)] if tier == 'thorough' else [])]
    return out
