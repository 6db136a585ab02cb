"""C17: piecewise-linear laws interpolate their data."""
import os
import numpy
import sympy as sp
from vlib.env import import_pyphs, SCRATCH
pyphs = import_pyphs()
from pyphs.dictionary import pwl  # noqa
from pyphs.dictionary.pwl import tools, _storage, _dissipative  # noqa
import sys  # noqa

META = dict(
    explanation='pwl_func and the pwl components are executed on tables of symbolic points (abscissae '
    'are sums of positive gaps on both sides of the origin); z3 proves that the law passes through every '
    'point, is affine on every segment and continues the end slopes outside, that the integrated form is '
    'its primitive with the given constant, is convex and minimal at the origin for increasing laws, and '
    'that the components use it as energy or dissipation law. The file reader is executed on files '
    'whose numbers are symbols.',
    bounds=['tables of 2 to 4 points (quick) or 6 (thorough) with the origin at every position; all '
            'positions and values of the points, all evaluation points',
            'files of up to 4 lines of up to 3 values; every start, stop, step in range'],
    outside=['tables without the origin (the components require it)', 'floating point rounding'],
    assumptions=['real arithmetic', 'the law at 0 is y0, as the caller states'],
    functions=['pwl_func', 'data_generator', 'pwl.Storage', 'pwl.Dissipative'])

x = sp.Symbol('x')


def table(n, zero, monotone):
    """symbolic points: gaps d_i > 0; values free, or increasing through the origin"""
    X = [None] * n
    pos = [sp.Symbol('d%d' % i, positive=True) for i in range(n)]
    Xs = []
    for i in range(n):
        if i < zero:
            Xs.append(-sp.Add(*[pos[j] for j in range(i, zero)]))
        else:
            Xs.append(sp.Add(*[pos[j] for j in range(zero + 1, i + 1)]))
    if monotone:
        e = [sp.Symbol('e%d' % i, positive=True) for i in range(n)]
        Ys = []
        for i in range(n):
            if i < zero:
                Ys.append(-sp.Add(*[e[j] for j in range(i, zero)]))
            else:
                Ys.append(sp.Add(*[e[j] for j in range(zero + 1, i + 1)]))
    else:
        Ys = [sp.Symbol('y%d' % i) for i in range(n)]
    return Xs, Ys


def plain(e):
    """assumptions of the symbols removed, to be stated explicitly"""
    e = sp.sympify(e)
    if e.atoms(sp.Float):
        e = sp.nsimplify(e, rational=True)
    return e.xreplace({s: sp.Symbol(str(s)) for s in e.free_symbols if s.is_positive})


def positivity(Xs, Ys):
    return [plain(0) < sp.Symbol(str(s)) for s in sorted(
        {s for e in list(Xs) + list(Ys) for s in sp.sympify(e).free_symbols if s.is_positive}, key=str)]


def interp(s, tag, f, Xs, Ys, var=x):
    """f passes through the points, is affine between them and continues the end slopes"""
    pos = positivity(Xs, Ys)
    f, X, Y = plain(f), [plain(v) for v in Xs], [plain(v) for v in Ys]
    n = len(X)
    for i in range(n):
        s.prove_eq(tag + 'point%d' % i, f.xreplace({var: X[i]}), Y[i], assume=pos, what='law at point %d' % i)
    for i in range(-1, n):
        # segment between points a and b used for the slope; x = X[a] + t (X[b] - X[a])
        a, b = (0, 1) if i < 0 else (n - 2, n - 1) if i == n - 1 else (i, i + 1)
        t = sp.Symbol('t')
        cond = [t <= 0] if i < 0 else [t >= 1] if i == n - 1 else [t >= 0, t <= 1]
        s.prove_eq(tag + 'segment%d' % i, f.xreplace({var: X[a] + t * (X[b] - X[a])}),
                   Y[a] + t * (Y[b] - Y[a]), assume=pos + cond, what='law on segment %d' % i)


def primitive(s, tag, F, Xs, Ys, const, var=x):
    """F(0) = const and F(v) - F(u) is the area under the interpolation, segment by segment"""
    pos = positivity(Xs, Ys)
    F, X, Y = plain(F), [plain(v) for v in Xs], [plain(v) for v in Ys]
    n = len(X)
    zero = [i for i in range(n) if X[i] == 0][0]
    s.prove_eq(tag + 'origin', F.xreplace({var: sp.Integer(0)}), const, assume=pos, what='energy at the origin')
    for i in range(-1, n):
        a, b = (0, 1) if i < 0 else (n - 2, n - 1) if i == n - 1 else (i, i + 1)
        k = 0 if i < 0 else n - 1 if i == n - 1 else i
        t = sp.Symbol('t')
        cond = [t <= 0] if i < 0 else [t >= 1] if i == n - 1 else [t >= 0, t <= 1]
        v = X[a] + t * (X[b] - X[a])
        fv = Y[a] + t * (Y[b] - Y[a])
        s.prove_eq(tag + 'area%d' % i, F.xreplace({var: v}) - F.xreplace({var: X[k]}),
                   (v - X[k]) * (fv + Y[k]) / 2, assume=pos + cond,
                   what='area under the law on segment %d' % i)
    return zero


def func(s, n, zero, mono, tier):
    Xs, Ys = table(n, zero, mono)
    y0 = Ys[zero]
    kw = {} if mono else dict(y0=y0)
    given = (list(Xs), list(Ys))
    f = tools.pwl_func(Xs, Ys, x, **kw)
    interp(s, 'f_', f, Xs, Ys)
    f2 = tools.pwl_func(numpy.array(Xs), numpy.array(Ys), symbol=x, integ=False, **kw)
    s.prove_eq('arrays', plain(f2), plain(f), assume=positivity(Xs, Ys))
    c = sp.Symbol('k')
    F = tools.pwl_func(Xs, Ys, x, integ=True, intconst=c, **kw)
    primitive(s, 'F_', F, Xs, Ys, c)
    F0 = tools.pwl_func(Xs, Ys, x, integ=True, **kw)
    s.prove_eq('const', plain(F) - c, plain(F0), assume=positivity(Xs, Ys), what='constant of integration')
    s.expect('unchanged', given == (Xs, Ys), 'tables left unchanged')
    try:
        tools.pwl_func(Xs, Ys[1:], x)
        s.expect('lengths', False, 'tables of different lengths accepted')
    except (AssertionError, ValueError):
        s.expect('lengths', True, '')


def numbers(s, tier):
    """tables of numbers, as read from files: the law at every real point"""
    tabs = [([-2., -1., 0., 1., 3.], [-3., -.5, 0., 2., 2.5]), ([0., 1.], [0., 3.]), ([-1., 0.], [-2., 0.]),
            ([-4.5, -.5, 0., .25, 1.25, 2.25, 10.25], [-1., -.75, 0., .125, 4., 4.5, 4.75]),
            ([-1, 0, 1, 2], [-1, 0, 4, 5])]
    for k, (X, Y) in enumerate(tabs):
        interp(s, 'n%d_' % k, tools.pwl_func(X, Y, x), X, Y)
        primitive(s, 'N%d_' % k, tools.pwl_func(X, Y, x, integ=True), X, Y, 0)


class Tables:
    """data_generator replaced by the symbolic table (its own scenario checks the reader)"""

    def __init__(self, Xs, Ys):
        self.rows = [list(Xs), list(Ys)]

    def __call__(self, path, *a, **k):
        return iter([list(r) for r in self.rows])


def component(s, kind, n, zero, tier):
    Xs, Ys = table(n, zero, kind != 'energy')
    if kind == 'energy':
        # an energy table: non negative, zero at the origin
        Ys = [sp.Integer(0) if i == zero else sp.Symbol('e%d' % i, positive=True) for i in range(n)]
    mod = _dissipative if kind == 'dissip' else _storage
    old = mod.data_generator
    mod.data_generator = Tables(Xs, Ys)
    try:
        args = [{}] if kind != 'integrated' else [dict(integ=True), dict(integrate=True)]
        if kind == 'energy':
            args.append(dict(integ=False))
        comps = []
        for ctrl in 'ef':
            for a in args:
                c = (pwl.Dissipative if kind == 'dissip' else pwl.Storage)(
                    'pw', ('A', 'B'), file='f.txt', ctrl=ctrl, **a)
                comps.append((ctrl, c))
        if n > 2:
            # the first and last values can be left out with start and stop, when the origin remains
            for k, (st, en) in enumerate(((1, None), (None, n - 1), (0, None))):
                part = slice(st, en)
                if not (0 in Xs[part]) or len(Xs[part]) < 2:
                    continue
                kw = dict(args[0])
                kw.update({a: v for a, v in (('start', st), ('stop', en)) if v is not None})
                c = (pwl.Dissipative if kind == 'dissip' else pwl.Storage)('pw', ('A', 'B'), file='f.txt',
                                                                           ctrl='e', **kw)
                check(s, 'part%d_' % k, kind, 'e', c, Xs[part], Ys[part])
            if zero == 0 and n > 3:
                c = (pwl.Dissipative if kind == 'dissip' else pwl.Storage)('pw', ('A', 'B'), file='f.txt',
                                                                           ctrl='e', step=2, **args[0])
                check(s, 'step_', kind, 'e', c, Xs[::2], Ys[::2])
    finally:
        mod.data_generator = old
    for k, (ctrl, c) in enumerate(comps):
        check(s, 'c%d_' % k, kind, ctrl, c, Xs, Ys)


def check(s, tag, kind, ctrl, c, Xs, Ys):
    core, edges = c.core, list(c.edges(data=True))
    ok = s.expect(tag + 'edge', len(edges) == 1 and edges[0][:2] == ('A', 'B') and edges[0][2]['ctrl'] == ctrl and
                  edges[0][2]['type'] == ('dissipative' if kind == 'dissip' else 'storage'),
                  'one edge of the right type from the first node to the second')
    if not ok:
        return
    lab = edges[0][2]['label']
    pos = positivity(Xs, Ys)
    if kind == 'dissip':
        if not s.expect(tag + 'vars', list(core.w) == [lab] and len(core.z) == 1 and not core.x, 'one variable'):
            return
        interp(s, tag, core.z[0], Xs, Ys, lab)
        interp(s, tag + 'edge_', edges[0][2]['z'][ctrl + '_ctrl'], Xs, Ys, lab)
        z = plain(core.z[0])
        w = plain(lab)
        s.prove_rel(tag + 'passive', z * w >= 0, assume=pos, what='dissipated power is not negative')
        return
    if not s.expect(tag + 'vars', list(core.x) == [lab] and not core.w, 'one state'):
        return
    if kind == 'energy':
        interp(s, tag, core.H, Xs, Ys, lab)
        return
    primitive(s, tag, core.H, Xs, Ys, 0, lab)
    s.prove_rel(tag + 'energy', plain(core.H) >= 0, assume=pos, what='stored energy is not negative')


BAD = {
    'dissip': [([-1., 0., 1.], [1., 0., 2.]), ([-1., 0., 1.], [-1., 0., -2.]), ([-1., 0., 1.], [-1., .5, 2.]),
               ([0., 1., 2.], [0., 2., 1.])],
    'integrated': [([-1., 0., 1.], [1., 0., 2.]), ([-1., 0., 1.], [-1., 0., -2.]), ([-1., 0., 1.], [-1., .5, 2.])],
    'energy': [([-1., 0., 1.], [-1., 0., 2.]), ([-1., 0., 1.], [1., 0., -2.]), ([-1., 0., 1.], [1., .5, 2.])]}


def refused(s, tier):
    """tables that do not define a passive component are refused"""
    for kind, tabs in BAD.items():
        mod = _dissipative if kind == 'dissip' else _storage
        for k, (X, Y) in enumerate(tabs):
            old = mod.data_generator
            mod.data_generator = Tables(X, Y)
            try:
                kw = dict(integ=True) if kind == 'integrated' else {}
                (pwl.Dissipative if kind == 'dissip' else pwl.Storage)('pw', ('A', 'B'), file='f', ctrl='e', **kw)
                s.expect('%s%d' % (kind, k), False, 'table %s, %s accepted' % (X, Y))
            except AssertionError:
                s.expect('%s%d' % (kind, k), True, '')
            finally:
                mod.data_generator = old


def reader(s, tier):
    """the numbers of the file are symbols: `float` applied to token i,j gives v_i_j"""
    path = os.path.join(SCRATCH, 'table.txt')
    L, C = 4, 3
    with open(path, 'w') as f:
        for i in range(L):
            f.write(('  ' if i % 2 else ' ').join('%d' % (10 * i + j) for j in range(C)) + '\n')

    def symfloat(t):
        return float(t) if t in ('Inf', 'inf') else sp.Symbol('v_%d' % int(t))
    tools.float = symfloat
    try:
        V = [[sp.Symbol('v_%d' % (10 * i + j)) for j in range(C)] for i in range(L)]
        pairs = []
        for ind in (None, 0, 2):
            for start in (None, 0, 1, 3):
                for stop in (None, 0, 2, 4, 9):
                    for step in (None, 1, 2, 3):
                        for post in (None, lambda v: 2 * v + 1):
                            got = list(tools.data_generator(path, ind=ind, step=step, start=start, stop=stop,
                                                            postprocess=post))
                            want = V[slice(start, stop, step)]
                            want = [[post(v) if post else v for v in r] if ind is None else
                                    (post(r[ind]) if post else r[ind]) for r in want]
                            key = 'r_%s_%s_%s_%s_%s' % (ind, start, stop, step, bool(post))
                            if not s.expect(key, len(got) == len(want), 'lines read: %s' % got):
                                continue
                            for a, b in zip(got, want):
                                if ind is None and not s.expect(key + 'c', isinstance(a, list) and len(a) == len(b),
                                                                'values per line'):
                                    continue
                                pairs += list(zip([key] * C, a, b)) if ind is None else [(key, a, b)]
        s.prove_all('values', pairs, what='values read from the file')
        try:
            list(tools.data_generator(path, ind='1'))
            s.expect('index', False, 'index that is not an integer accepted')
        except (ValueError, TypeError):
            s.expect('index', True, '')
    finally:
        del tools.float


def scenarios(tier):
    out = []
    N = 4 if tier == 'quick' else 6
    for n in range(2, N + 1):
        for zero in range(n):
            for mono in (False, True):
                out.append(('func_%d_%d_%s' % (n, zero, mono), func, dict(n=n, zero=zero, mono=mono, tier=tier)))
            for kind in ('dissip', 'integrated', 'energy'):
                if n <= (4 if tier == 'quick' else 5):
                    out.append(('%s_%d_%d' % (kind, n, zero), component, dict(kind=kind, n=n, zero=zero, tier=tier)))
    return out + [('numbers', numbers, dict(tier=tier)), ('refused', refused, dict(tier=tier)),
                  ('reader', reader, dict(tier=tier))]
