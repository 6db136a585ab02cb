"""C07: connecting ports imposes u0 = -alpha*y1, u1 = alpha*y0 and conserves power."""
import itertools
import sympy as sp
from vlib.env import import_pyphs, cramer_inverse
pyphs = import_pyphs()
cramer_inverse()
from vlib import cores  # noqa
from pyphs import Core  # noqa
S, F = cores.S, cores.F

META = dict(
    explanation='add_connector and connect are executed on cores with a symbolic structure matrix, '
    'symbolic laws and symbolic coefficients. With the connected inputs given by the (unique) solution '
    'of the connection law in the original system, z3 proves that every remaining flow of the connected '
    'system is that of the original, for all efforts, inputs, matrix entries and alpha where the '
    'connection is well posed; the power through the connection is zero.',
    bounds=['up to 4 ports, 2 connections in every order and orientation, with 1 storage and up to '
            '1 dissipation; thorough adds 2+1 systems of five ports and 3 connections'],
    outside=['connectors left over without a partner (no law is defined for them)'],
    assumptions=['real arithmetic', 'the connection is well posed (its determinant is not zero)'],
    functions=['Core.add_connector', 'Core.connect', 'port2connector', 'move_connector',
               'moveCoreMcolnrow', 'Core.__add__', 'inverse'])


def mk(nx=1, nw=1, ny=3, skew=False, lab='', free=None):
    c = Core('conn')
    x = [S('x%d%s' % (i, lab)) for i in range(1, nx + 1)]
    if nx:
        c.add_storages(x, sum(F('h%d%s' % (i, lab))(v) for i, v in enumerate(x)))
    w = [S('w%d%s' % (i, lab)) for i in range(1, nw + 1)]
    if nw:
        c.add_dissipations(w, [F('z%d%s' % (i, lab))(v) for i, v in enumerate(w)])
    if ny:
        c.add_ports([S('u%d%s' % (i, lab)) for i in range(ny)], [S('y%d%s' % (i, lab)) for i in range(ny)])
    cores.fullM(c, skew=skew, tag='m' + lab)
    if free is not None:        # keep only some port-port entries (size of the determinant)
        n0 = nx + nw
        M = sp.Matrix(c.M)
        for i, j in itertools.product(range(ny), repeat=2):
            if (i, j) not in free:
                M[n0 + i, n0 + j] = 0
        c.M = sp.SparseMatrix(M)
    return c


def rows(c):
    e = list(c.dxH()) + list(c.z) + list(c.u) + list(c.cu)
    r = ['x:%s' % v for v in c.x] + ['w:%s' % v for v in c.w] + ['y:%s' % v for v in c.y] + \
        ['y:%s' % v for v in c.cy]
    n = c.dims.tot()
    if not (len(e) == len(r) == n and c.M.shape == (n, n)):
        return None
    return {k: sum(c.M[i, j] * e[j] for j in range(n)) for i, k in enumerate(r)}


def solve(c0, links):
    """inputs of the connected ports, from the law and the original output equations"""
    f = rows(c0)
    us, eqs = [], []
    for (i, j, al) in links:
        ui, uj, yi, yj = c0.u[i], c0.u[j], f['y:%s' % c0.y[i]], f['y:%s' % c0.y[j]]
        us += [ui, uj]
        eqs += [ui + al * yj, uj - al * yi]
    A = sp.Matrix([[sp.diff(e, u) for u in us] for e in eqs])
    zero = {u: 0 for u in us}
    b = sp.Matrix([-sp.expand(e).subs(zero) for e in eqs])
    det = sp.expand(A.det(method='berkowitz'))
    sol = {}
    for k, u in enumerate(us):
        Ak = A.copy()
        Ak[:, k] = b
        sol[u] = Ak.det(method='berkowitz') / det
    return sol, det


def verify(s, c0, c, links):
    """c0: original system; c: the connected one; links: [(i, j, alpha)] in terms of c0's ports"""
    f0, f1 = rows(c0), rows(c)
    gone = {str(c0.y[k]) for i, j, _ in links for k in (i, j)}
    if not s.expect('shape', f1 is not None and c.dims.cy() == 0 and not c.connectors and
                    [str(y) for y in c.y] == [str(y) for y in c0.y if str(y) not in gone] and
                    len(c.u) == len(c.y), 'ports left after the connection'):
        return
    pair = dict(zip(map(str, c0.y), map(str, c0.u)))
    s.expect('pairs', all(pair[str(y)] == str(u) for u, y in zip(c.u, c.y)), 'inputs and outputs paired')
    if not s.expect('rows', set(f1) == {k for k in f0 if k[2:] not in gone}, 'variables'):
        return
    sol, det = solve(c0, links)
    laws0 = dict(zip(map(str, c0.w), c0.z))
    s.prove_all('laws', [('z_%s' % w, z, laws0[str(w)]) for w, z in zip(c.w, c.z)] +
                [('H', c.H, c0.H)], what='laws unchanged')
    s.prove_all('flows', [(k, f1[k], f0[k].subs(sol)) for k in f1], assume=[sp.Ne(det, 0)],
                what='flow of the connected system vs original with the connection law')
    for n, (i, j, al) in enumerate(links):
        yi, yj = (f0['y:%s' % c0.y[k]].subs(sol) for k in (i, j))
        if len(links) == 1:
            s.prove_eq('power_%d' % n, sol[c0.u[i]] * yi + sol[c0.u[j]] * yj, 0,
                       assume=[sp.Ne(det, 0)], what='power through the connection')


def index(c, y):
    return [str(v) for v in c.y].index(y)


def single(s, ny, i, j, alpha, nw=1, nx=1, skew=False, tier='quick'):
    c0, c = (mk(ny=ny, nw=nw, nx=nx, skew=skew) for _ in range(2))
    if alpha is None:
        c.add_connector((i, j))
        al = sp.Integer(1)
    else:
        c.add_connector((i, j), alpha)
        al = alpha
    # declared but not connected: nothing changes but the group of the ports
    f0, f1 = rows(c0), rows(c)
    if s.expect('declared_shape', f1 is not None and set(f0) == set(f1) and c.dims.cy() == 2,
                'declaration keeps the variables'):
        s.prove_all('declared', [(k, f1[k], f0[k]) for k in f0], what='equations after add_connector')
    c.connect()
    verify(s, c0, c, [(i, j, al)])


def double(s, first, second, swap=False, ny=4, free=(), tier='quick'):
    """two connections; the second is declared in terms of the ports still there"""
    mkc = lambda: mk(ny=ny, nw=0, nx=1, free=set(free))  # noqa
    c0, c = mkc(), mkc()
    links = []
    for n, (i, j) in enumerate((first, second)):
        al = S('al%d' % n)
        c.add_connector((index(c, str(c0.y[i])), index(c, str(c0.y[j]))), al)
        links.append((i, j, al))
    if swap:
        c.connectors.reverse()
    c.connect()
    verify(s, c0, c, links)


def sequential(s, first, second, free=(), tier='quick'):
    """connect() after each declaration"""
    mkc = lambda: mk(ny=4, nw=0, nx=1, free=set(free))  # noqa
    c0, c = mkc(), mkc()
    links = []
    for n, (i, j) in enumerate((first, second)):
        al = S('al%d' % n)
        c.add_connector((index(c, str(c0.y[i])), index(c, str(c0.y[j]))), al)
        c.connect()
        links.append((i, j, al))
    verify(s, c0, c, links)


def across(s, i, j, tier='quick'):
    """connection between two systems that have been added"""
    a, b = (lambda: mk(ny=2, nw=0, lab='a')), (lambda: mk(ny=2, nw=1, lab='b'))
    c0, c = a() + b(), a() + b()
    c.add_connector((i, j), S('al'))
    c.connect()
    verify(s, c0, c, [(i, j, S('al'))])


def split_first(s, tier='quick'):
    """connection of a system whose components have been split and moved"""
    def mkc():
        c = Core('sp')
        x = [S('x1'), S('x2')]
        c.add_storages(x, F('h')(x[0]) + S('q') * x[1]**2 / 2)
        c.add_dissipations([S('w1'), S('w2')], [F('z')(S('w1')), S('r') * S('w2')])
        cores.ports(c, 3)
        return cores.fullM(c, skew=True)
    c0, c = mkc(), mkc()
    c.linear_nonlinear()
    c.add_connector((2, 0), S('al'))
    c.connect()
    s.expect('dims', (c.dims.xl(), c.dims.wl()) == (1, 1), 'split dimensions kept')
    verify(s, c0, c, [(2, 0, S('al'))])


def refused(s, tier='quick'):
    """a connection without solution is refused, not silently resolved"""
    c = Core('alg')
    cores.ports(c, 2)
    c.init_M()
    c.M = sp.SparseMatrix([[0, 1], [-1, 0]])
    c.add_connector((0, 1), sp.Integer(1))
    try:
        c.connect()
        ok = False
    except Exception:
        ok = True
    s.expect('singular', ok, 'singular connection is refused')
    for bad in ((0, 0), (0, 7)):
        c = mk(ny=2)
        try:
            c.add_connector(bad, S('al'))
            ok = False
        except AssertionError:
            ok = True
        s.expect('bad_%s_%s' % bad, ok, 'meaningless connector is refused')


def scenarios(tier):
    out = []
    al = S('al')
    for ny in (2, 3):
        for i, j in itertools.permutations(range(ny), 2):
            out.append(('single_%d_%d_%d' % (ny, i, j), single, dict(ny=ny, i=i, j=j, alpha=al)))
    out.append(('single_default', single, dict(ny=3, i=2, j=1, alpha=None)))
    out.append(('single_expr', single, dict(ny=2, i=1, j=0, alpha=S('a') / (1 + S('x1')**2))))
    out.append(('single_skew', single, dict(ny=3, i=2, j=0, alpha=al, skew=True, nx=2)))
    out.append(('single_nox', single, dict(ny=3, i=2, j=0, alpha=al, nx=0)))
    out.append(('single_only', single, dict(ny=3, i=0, j=2, alpha=al, nx=0, nw=0)))
    cross = [(0, 2), (1, 3), (3, 0), (2, 1)]
    pairs = [((0, 1), (2, 3)), ((3, 1), (0, 2)), ((2, 0), (3, 1)), ((1, 2), (3, 0)), ((3, 2), (1, 0))]
    if tier == 'thorough':
        pairs = [(p[:2], p[2:]) for p in itertools.permutations(range(4), 4)]
    for n, (a, b) in enumerate(pairs):
        out.append(('double_%d%d_%d%d' % (a + b), double, dict(first=a, second=b, free=cross)))
    out.append(('double_swap', double, dict(first=(1, 2), second=(3, 0), swap=True, free=cross)))
    out.append(('double_5', double, dict(first=(4, 1), second=(0, 3), ny=5, free=cross + [(4, 1), (3, 3)])))
    for a, b in pairs[:3] if tier == 'quick' else pairs:
        out.append(('seq_%d%d_%d%d' % (a + b), sequential, dict(first=a, second=b, free=cross[:3])))
    for i, j in ((0, 2), (3, 1), (1, 2)):
        out.append(('across_%d_%d' % (i, j), across, dict(i=i, j=j)))
    out += [('split', split_first, {}), ('refused', refused, {})]
    return out
