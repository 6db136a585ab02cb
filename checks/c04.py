"""C04: one step of the Python engine solves the equations of the scheme."""
import numpy
from vlib import num
num.install()
from vlib.env import import_pyphs  # noqa
pyphs = import_pyphs(DTYPE=numpy.object_)
import sympy as sp  # noqa
from vlib import cores  # noqa
from vlib.num import Num  # noqa
num.proxy_modules()

META = dict(
    explanation='The real Numeric object is built from the real Method and its update() is executed '
    'on symbolic numbers (object arrays), from an arbitrary symbolic previous state, increment, '
    'iterate, input and parameters; every branch of the engine is explored under solver-checked '
    'path conditions. After the step the scheme residual, the Newton equation, the stopping rule, '
    'the state advance and the outputs are SMT obligations over all real values.',
    bounds=['cores of at most 3 unknown increments/dissipation variables of each kind',
            'Newton iterations: maxit = 1 (all), 2 (scalar core); eps = 2**-10; fs in {4, 1/2}',
            'increments outside the discrete gradient tolerance are not assumed: all branches of the '
            'generated selection are explored'],
    outside=['floating point rounding and convergence speed of Newton iterations',
             'singular jacobians (the engine raises)', 'theano back end'],
    assumptions=['numpy.linalg.inv returns the exact inverse; numpy.dot/add/select are the array '
                 'operations they document (executed for real on object arrays)'],
    functions=['Numeric.__init__', 'Numeric.update', 'Numeric._execs', 'Numeric._iterexecs',
               'Operation', 'norm', 'lambdify', 'Method.set_execactions'])

EPS = sp.Rational(1, 1024)


def prepare(build, grad, theta, split, maxit, fs):
    core = build(poly=True)
    allsym = set(core.M.free_symbols) | set(sp.sympify(core.H).free_symbols)
    for z in core.z:
        allsym |= z.free_symbols
    for v in core.observers.values():
        allsym |= v.free_symbols
    known = set(core.x) | set(core.w) | set(core.u) | set(core.p) | set(core.observers) | \
        set(core.g())
    core.add_parameters(sorted(allsym - known, key=str))
    m = core.to_method(config=dict(grad=grad, theta=float(theta), split=split,
                                   epsdg=2.**-20))
    # a point where the jacobian is regular (the constructor evaluates every function once)
    ini = {k: numpy.array([.5 + i for i in range(n)]) for k, n in
           (('p', m.dims.p()), ('w', m.dims.w()), ('x', m.dims.x())) if n}
    nums = m.to_numeric(inits=ini,
                        config={'fs': float(fs), 'eps': float(EPS), 'maxit': maxit,
                                'theano': False})
    return core, m, nums


def engine(s, build, grad, theta, split, maxit, fs, tier, fix=None):
    core, m, nums = prepare(build, grad, theta, split, maxit, fs)
    nx, nw, ny, np_ = m.dims.x(), m.dims.w(), m.dims.y(), m.dims.p()
    names = lambda pre, l: [pre + str(v) for v in l]  # noqa
    # equations of the method, from the quantities it exposes
    fss = sp.Rational(fs)
    a = list(m.dxH()) + list(m.z) + list(m.u)
    n = m.dims.tot()
    exact = lambda e: sp.nsimplify(sp.sympify(e), rational=True)  # noqa
    Ma = [exact(sum(m.M[i, j] * a[j] for j in range(n))) for i in range(n)]
    v = list(m.dx()) + list(m.w)
    F = [(fss * d if i < nx else d) - Ma[i] for i, d in enumerate(v)]
    il = list(range(m.dims.xl())) + [nx + i for i in range(m.dims.wl())]
    inl = [i for i in range(nx + nw) if i not in il]
    vl, vnl = [v[i] for i in il], [v[i] for i in inl]
    JF = {(i, j): sp.diff(F[i], v[j]) for i in range(nx + nw) for j in range(nx + nw)}
    dxHe, ze = [exact(e) for e in m.dxH()], [exact(e) for e in m.z]
    obse = [(str(k), exact(e)) for k, e in m.observers.items()]

    def body(chk):
        X0, D0, W0, U0, P0 = (chk.vec([(fix or {}).get(k, k) for k in names(c, l)])
                              for c, l in zip('XDWUP', (m.x, m.x, m.w, m.u, m.p)))
        if nx:
            nums.set_x(X0.copy())
            nums.set_dx(D0.copy())
        if nw:
            nums.set_w(W0.copy())
        if obse:
            nums.set_o(chk.vec(names('O', m.o())))
        nums.update(U0.copy(), P0.copy())
        get = lambda n_, k: list(getattr(nums, n_)()) if k else []  # noqa
        env = {str(m.fs): Num(num.fractions.Fraction(int(fss.p), int(fss.q)))}
        for l, vals in ((m.x, X0 + D0 if nx else []), (m.u, U0), (m.p, P0)):
            env.update((str(k), q) for k, q in zip(l, vals))

        def at(e, dx, w):
            d = dict(env)
            d.update((str(k), q) for k, q in zip(m.dx(), dx))
            d.update((str(k), q) for k, q in zip(m.w, w))
            return num.evaluate(e, d)
        for i, q in enumerate(get('x', nx)):
            chk.eq('x_%d' % i, q, X0[i] + D0[i], 'state after the step vs previous state plus increment')
        for i, q in enumerate(get('u', ny)):
            chk.eq('u_%d' % i, q, U0[i], 'input')
        for i, q in enumerate(get('p', np_)):
            chk.eq('p_%d' % i, q, P0[i], 'parameter')
        obs = [(k, at(e, D0, W0)) for k, e in obse]
        for (k, e), q in zip(obs, get('o', len(obs))):
            chk.eq('obs_' + k, q, e, 'observer at the beginning of the step')
        env.update(obs)
        dx1, w1 = get('dx', nx), get('w', nw)
        for i, (q, e) in enumerate(zip(get('dxH', nx), dxHe)):
            chk.eq('dxH_%d' % i, q, at(e, dx1, w1), 'gradient returned by the step')
        for i, (q, e) in enumerate(zip(get('z', nw), ze)):
            chk.eq('z_%d' % i, q, at(e, dx1, w1), 'dissipation returned by the step')
        for i, q in enumerate(get('y', ny)):
            chk.eq('y_%d' % i, q, at(Ma[nx + nw + i], dx1, w1), 'output returned by the step')
        # linear equations are solved exactly
        for i in il:
            chk.eq('Fl_%d' % i, at(F[i], dx1, w1), 0, 'residual of the linear part')
        if not inl:
            return
        v0, v1 = list(D0) + list(W0), list(dx1) + list(w1)
        zeros = {i: Num(num.F0) for i in il}
        split_ = lambda vals: (vals[:nx], vals[nx:])  # noqa

        def with_linear(vals):
            """the point where the linear equations hold, for given nonlinear unknowns"""
            p = list(vals)
            for i in il:
                p[i] = zeros[i]
            if il:
                G = [at(F[i], *split_(p)) for i in il]
                Jll = [[at(JF[i, j], *split_(p)) for j in il] for i in il]
                Ji = num.exact_inverse(Jll)
                for r, i in enumerate(il):
                    t = Num(num.F0)
                    for c in range(len(il)):
                        t = t - Ji[r][c] * G[c]
                    p[i] = t
            return p

        def residual(p):
            return [at(F[i], *split_(p)) for i in inl]

        def sq(vals):
            t = Num(num.F0)
            for q in vals:
                t = t + q * q
            return t
        p0 = with_linear(v0)
        r0 = residual(p0)
        E2 = Num(num.fractions.Fraction(1, 1024)**2)
        side = {}
        for q in r0 + list(v1):
            side.update(q.side)
        if all(num.same(v0[i].n, v1[i].n) and num.same(v0[i].d, v1[i].d) for i in inl):
            chk.rel('stop0', sq(r0) <= E2, side,
                    'the engine did not iterate: the residual is within eps')
            return
        chk.rel('start', sq(r0) > E2, side, 'the engine iterated: the residual exceeds eps')
        # dependence of the linear unknowns on the nonlinear ones along the manifold
        if il:
            Jll = [[at(JF[i, j], *split_(p0)) for j in il] for i in il]
            Ji = num.exact_inverse(Jll)

        def newton_nl(p, dnl):
            """directional derivative on the manifold"""
            dv = [Num(num.F0)] * (nx + nw)
            for i, q in zip(inl, dnl):
                dv[i] = q
            if il:
                rhs = []
                for i in il:
                    t = Num(num.F0)
                    for j in inl:
                        t = t + at(JF[i, j], *split_(p)) * dv[j]
                    rhs.append(t)
                for r, i in enumerate(il):
                    t = Num(num.F0)
                    for c in range(len(il)):
                        t = t - Ji[r][c] * rhs[c]
                    dv[i] = t
            out = []
            for i, r in zip(inl, residual(p)):
                t = r
                for j in range(nx + nw):
                    t = t + at(JF[i, j], *split_(p)) * dv[j]
                out.append(t)
            return out
        if maxit == 1:
            for i, q in enumerate(newton_nl(p0, [v1[i] - v0[i] for i in inl])):
                chk.eq('newton_%d' % i, q, 0, 'Newton equation')
            return
        # maxit 2 (one nonlinear unknown): one Newton step and a stopping criterion, or two steps
        i = inl[0]

        def slope(p):
            """derivative of the residual along the manifold of the linear equations"""
            one = Num(num.F1)
            r = residual(p)[0]
            return newton_nl(p, [one])[0] - r
        first = v0[i] - r0[0] / slope(p0)
        p1 = list(p0)
        p1[i] = first
        p1 = with_linear(p1)
        r1 = residual(p1)[0]
        two = first - r1 / slope(p1)
        side.update(two.side)
        side.update(v1[i].side)
        if chk.values is None and num.identical(v1[i], first) or \
                chk.values is not None and v1[i].const() == first.const():
            s1, s2 = (r1 * r1 <= E2), ((r1 - r0[0]) * (r1 - r0[0]) <= E2)
            chk.rel('stop1', num.SymBool(num.z3.Or(s1.z3(), s2.z3())) if chk.values is None else
                    num.SymBool(bool(s1) or bool(s2)), side,
                    'the engine stopped after one iteration: the residual or the step is within eps')
            return
        chk.eq('two', v1[i], two, 'second Newton iterate')
        chk.rel('more1', r1 * r1 > E2, side, 'second iteration: the residual exceeds eps')
        chk.rel('more2', (r1 - r0[0]) * (r1 - r0[0]) > E2, side, 'second iteration: the step exceeds eps')

    num.prove_paths(s, body, max_paths=400)


def sequence(s, build, split, fs, tier):
    """consecutive updates with different inputs: each starts where the previous one ended"""
    core, m, nums = prepare(build, 'discret', 0, split, 1, fs)
    nx, nw = m.dims.x(), m.dims.w()

    def body(chk):
        X0 = chk.vec(['X%d' % i for i in range(nx)])
        nums.set_x(X0.copy())
        nums.set_dx(chk.vec([0] * nx))
        if nw:
            nums.set_w(chk.vec([0] * nw))
        P0 = chk.vec(['P' + str(v) for v in m.p])
        prev = list(X0)
        for k in range(3 if tier == 'thorough' else 2):
            U = chk.vec(['U%d_%d' % (k, i) for i in range(m.dims.y())])
            nums.update(U.copy(), P0.copy())
            x, dx = list(nums.x()), list(nums.dx())
            for i in range(nx):
                chk.eq('x%d_%d' % (k, i), x[i], prev[i], 'state of step %d' % k)
            prev = [p + q for p, q in zip(x, dx)]
            for i in range(m.dims.y()):
                chk.eq('u%d_%d' % (k, i), nums.u()[i], U[i], 'input of step %d' % k)
    num.prove_paths(s, body)


def defaults(s, tier):
    """inputs and parameters default to zero"""
    core, m, nums = prepare(lin_small, 'discret', 0, True, 1, 4)
    nx, nw = m.dims.x(), m.dims.w()

    def body(chk):
        def run(*args):
            nums.set_x(chk.vec(['X%d' % i for i in range(nx)]))
            nums.set_dx(chk.vec(['D%d' % i for i in range(nx)]))
            nums.set_w(chk.vec(['W%d' % i for i in range(nw)]))
            nums.update(*args)
            return [list(nums.dx()), list(nums.w()), list(nums.y()), list(nums.u()), list(nums.p())]
        U, P = chk.vec(['U']), chk.vec(['P%d' % i for i in range(m.dims.p())])
        Z, ZP = chk.vec([0] * m.dims.y()), chk.vec([0] * m.dims.p())
        run(U.copy(), P.copy())
        ref = run(Z.copy(), ZP.copy())
        run(U.copy(), P.copy())
        got = run()
        refu = run(U.copy(), ZP.copy())
        gotu = run(U.copy())
        for t, (g, r) in (('up', (got, ref)), ('p', (gotu, refu))):
            for k, (l1, l2) in enumerate(zip(g, r)):
                for i, (p, q) in enumerate(zip(l1, l2)):
                    chk.eq('%s_%d_%d' % (t, k, i), p, q, 'omitted inputs/parameters are zero')
    num.prove_paths(s, body)


def inits(s, tier):
    """initial values are taken from `inits`"""
    core = cores.lin_coupled(poly=True)
    core.add_parameters(sorted((set(core.M.free_symbols) | core.H.free_symbols |
                                core.z[0].free_symbols) - set(core.x) - set(core.w), key=str))
    m = core.to_method(config=dict(split=True))
    vals = {'x': m.dims.x(), 'dx': m.dims.x(), 'w': m.dims.w(), 'u': m.dims.y(), 'p': m.dims.p()}
    vals = {k: ['%s_%d' % (k.upper(), i) for i in range(n)] for k, n in vals.items()}

    def body(chk):
        nums = m.to_numeric(inits={k: chk.vec(v) for k, v in vals.items()},
                            config={'theano': False, 'fs': 4.})
        for k, v in vals.items():
            got = list(getattr(nums, k)())
            chk.expect('len_' + k, len(got) == len(v), 'number of values of ' + k)
            for i, (g, n) in enumerate(zip(got, v)):
                chk.eq('%s_%d' % (k, i), g, chk.inp(n), 'initial value')
    num.prove_paths(s, body)


# -- small cores for the nonlinear engine -----------------------------------------------------
def numM(c):
    """a structure with fixed rational entries (no zero, neither symmetric nor skew)"""
    n = c.dims.tot()
    c.init_M()
    c.M = sp.SparseMatrix(n, n, lambda i, j: sp.Rational((3 * i + 5 * j + i * j) % 7 + 1 - (8 if j > i else 0),
                                                   1 + (i + j) % 2) if i != j else
                    sp.Rational(-1 - i, 2))
    return c


def nl_scalar(poly=True):
    c = cores.Core('nls')
    S = cores.S
    c.add_storages(S('x1'), S('x1')**3)
    cores.ports(c, 1)
    c.init_M()
    c.set_Jxy([[2]])
    c.set_Rxx([[1]])
    return c


def nl_split(poly=True):
    """one nonlinear dissipation, one linear storage, one linear dissipation"""
    c = cores.Core('nlsplit')
    S = cores.S
    c.add_storages(S('x1'), S('q') * S('x1')**2 / 2)
    c.add_dissipations([S('w1'), S('w2')], [S('w1')**2, S('r') * S('w2')])
    cores.ports(c, 1)
    return numM(c)


def nl_diss(poly=True):
    c = cores.Core('nldiss')
    S = cores.S
    c.add_dissipations([S('w1'), S('w2')], [S('w1')**2 * S('w2'), S('w2')**3 + S('w1')])
    cores.ports(c, 1)
    return numM(c)


def nl_two(poly=True):
    """coupled nonlinear storages and a linear one"""
    c = cores.Core('nltwo')
    S = cores.S
    c.add_storages([S('x1'), S('x2'), S('x3')], S('x1')**2 * S('x2') + S('x3')**2 / 2)
    cores.ports(c, 1)
    c.init_M()
    c.set_Jxx([[0, 3, 1], [-3, 0, 0], [-1, 0, 0]])
    c.set_Jxy([[0], [0], [1]])
    return c


def nl_obs(poly=True):
    c = cores.Core('nlobs')
    S = cores.S
    c.add_storages(S('x1'), S('x1')**2)
    c.add_dissipations(S('w1'), S('w1')**2 * S('o1') + S('w1') * S('x1'))
    cores.ports(c, 1)
    numM(c)
    c.add_observer({S('o1'): S('x1') + S('u1') * S('pp')})
    return c


def scenarios(tier):
    out = []
    half = sp.Rational(1, 2)

    def add(b, grad, theta, split, maxit=1, fs=4, fix=None):
        name = '%s_%s_%s_%s_it%d_fs%s' % (b.__name__, grad, str(theta).replace('/', 'o'),
                                          'split' if split else 'full', maxit, str(fs).replace('/', 'o'))
        if fix:
            name += '_fix'
        out.append((name, engine, dict(build=b, grad=grad, theta=theta, split=split, maxit=maxit,
                                       fs=fs, tier=tier, fix=fix, timeout=30)))
    for b in (cores.lin_coupled, lin_small):
        add(b, 'discret', 0, True)
        add(b, 'theta', half, True)
        add(b, 'theta', 0, True, fs=half)
        add(b, 'trapez', 0, True)
    add(lin_num, 'discret', 0, False)
    add(lin_num, 'theta', 1, False)
    add(nl_scalar, 'theta', half, True)
    add(nl_scalar, 'discret', 0, False, fix={'Xx1': 1, 'Uu1': 3})
    add(nl_scalar, 'discret', 0, True, fix={'Xx1': -2, 'Uu1': 0})
    add(nl_scalar, 'theta', 1, False, maxit=2)
    add(nl_scalar, 'theta', 0, True)
    add(nl_split, 'theta', half, True, maxit=2, fix={'Xx1': 1, 'Dx1': 2, 'Ww2': 0, 'Uu1': 3, 'Pr': 1, 'Pq': 2})
    add(nl_split, 'discret', 0, True)
    add(nl_split, 'theta', half, True, fs=half)
    add(nl_diss, 'discret', 0, False)
    add(nl_diss, 'discret', 0, True)
    add(nl_two, 'theta', half, True)
    add(nl_two, 'theta', 0, True)
    add(nl_obs, 'theta', half, True)
    add(nl_obs, 'trapez', 0, True)
    if tier == 'thorough':
        add(nl_obs, 'discret', 0, True, fix={'Dx1': 1, 'Pp1': 1})
        add(nl_scalar, 'theta', half, False, maxit=2)
        add(nl_scalar, 'trapez', 0, True)
        add(nl_scalar, 'discret', 0, True, fix={'Dx1': num.fractions.Fraction(1, 2**21), 'Uu1': 1})
        add(nl_scalar, 'discret', 0, True, fix={'Dx1': -1, 'Uu1': 1})
        add(nl_two, 'theta', 1, True, fs=half)
        add(nl_two, 'theta', half, False)
        add(nl_diss, 'theta', half, True, fs=half)
        add(nl_split, 'theta', 0, False)
        add(nl_split, 'trapez', 0, True)
        add(lin_num, 'trapez', 0, False)
        add(lin_num, 'theta', 0, False, fs=half)
        add(cores.lin_coupled, 'theta', 1, True, fs=half)
    for sp_ in (True, False):
        out.append(('sequence_%s' % sp_, sequence, dict(build=lin_num, split=sp_, fs=4, tier=tier)))
    out.append(('defaults', defaults, dict(tier=tier)))
    out.append(('inits', inits, dict(tier=tier)))
    return out


def lin_small(poly=True):
    c = cores.Core('linsmall')
    S = cores.S
    c.add_storages(S('x1'), S('q') * S('x1')**2 / 2 + S('b') * S('x1'))
    c.add_dissipations(S('w1'), S('r') * S('w1'))
    cores.ports(c, 1)
    return cores.fullM(c)


def lin_num(poly=True):
    c = cores.Core('linnum')
    S = cores.S
    c.add_storages(S('x1'), 3 * S('x1')**2 / 4)
    c.add_dissipations(S('w1'), 2 * S('w1'))
    cores.ports(c, 1)
    return numM(c)
