"""C01: the structure matrix keeps the port-Hamiltonian form under every accessor and mutator."""
import sympy as sp
from vlib.env import import_pyphs
pyphs = import_pyphs()
from pyphs import Core  # noqa

META = dict(
    explanation='A real Core is built with an entirely symbolic structure matrix; every block '
    'mutator is executed with a symbolic block; each entry of M, J and R before/after is compared '
    'by the solver for all real values of the entries. The continuous power balance is an identity '
    'over symbolic gradients, dissipations, inputs and matrix entries.',
    bounds=['at most 3 storages, 3 dissipations, 2 ports, 2 connectors',
            'block pairs that overlap without being identical are excluded (ambiguous request)',
            'diagonal blocks given to the J (R) mutators are skew (symmetric)'],
    outside=['larger dimensions'],
    assumptions=['real arithmetic'],
    functions=['Core.set_{M,J,R}ab', 'Core.{M,J,R}ab', 'Core.J', 'Core.R', 'Core.pd', 'Core.a',
               'Core.b', 'Core.add_*', 'linear_nonlinear'])

NAMES = ('x', 'w', 'y', 'cy', 'xl', 'xnl', 'wl', 'wnl')


def S(name):
    return Core.symbols(name)


def make(nxl, nxn, nwl, nwn, ny, nc, symbolic=True):
    core = Core('c')
    xs = [S('x%d' % i) for i in range(nxl + nxn)]
    for i, x in enumerate(xs):
        core.add_storages(x, x**2 / 2 if i < nxl else x**4 / 4)
    for i in range(nwl + nwn):
        w = S('w%d' % i)
        core.add_dissipations(w, w if i < nwl else w**3)
    for i in range(ny + nc):
        core.add_ports(S('u%d' % i), S('y%d' % i))
    core.init_M()
    for k in range(nc // 2):
        core.add_connector((ny, ny + 1), alpha=S('alpha%d' % k))
    core.linear_nonlinear()
    n = core.dims.tot()
    if symbolic:
        core.M = sp.SparseMatrix(n, n, lambda i, j: S('m%d_%d' % (i, j)))
    return core


def ranges(core):
    nx, nw, ny, nc = (core.dims.x(), core.dims.w(), core.dims.y(), core.dims.cy())
    xl, wl = core.dims.xl(), core.dims.wl()
    return dict(x=(0, nx), w=(nx, nx + nw), y=(nx + nw, nx + nw + ny),
                cy=(nx + nw + ny, nx + nw + ny + nc),
                xl=(0, xl), xnl=(xl, nx), wl=(nx, nx + wl), wnl=(nx + wl, nx + nw))


def overlap(a, b):
    return max(a[0], b[0]) < min(a[1], b[1])


def blocks(s, part, dims, tier):
    ref = make(*dims)
    rg = ranges(ref)
    s.expect('split', (ref.dims.xl(), ref.dims.wl()) == (dims[0], dims[2]),
             'linear components are detected')
    n = ref.dims.tot()
    for a in NAMES:
        for b in NAMES:
            ra, rb = rg[a], rg[b]
            if ra != rb and overlap(ra, rb):
                continue
            if ra == rb and a != b:
                continue
            ni, nj = ra[1] - ra[0], rb[1] - rb[0]
            if ni == 0 or nj == 0:
                continue
            core = make(*dims)
            M0, J0, R0 = core.M.copy(), core.J(), core.R()
            new = sp.zeros(ni, nj)
            for i in range(ni):
                for j in range(nj):
                    if a == b and part == 'J':
                        new[i, j] = 0 if i == j else (S('n%d_%d' % (i, j)) if i < j else
                                                      -S('n%d_%d' % (j, i)))
                    elif a == b and part == 'R':
                        new[i, j] = S('n%d_%d' % (min(i, j), max(i, j)))
                    else:
                        new[i, j] = S('n%d_%d' % (i, j))
            arg = new.tolist() if (ni + nj) % 2 else sp.SparseMatrix(new)
            getattr(core, 'set_%s%s%s' % (part, a, b))(arg)
            M1, J1, R1 = core.M, core.J(), core.R()
            key = '%s%s%s' % (part, a, b)
            if not s.expect(key + '_shape', M1.shape == (n, n), 'shape of M changed'):
                continue
            got = getattr(core, '%s%s%s' % (part, a, b))()
            s.expect(key + '_getshape', got.shape == (ni, nj), 'shape of the block accessor')
            tgt = {'M': M1, 'J': J1, 'R': R1}[part]
            old = {'M': M0, 'J': J0, 'R': R0}[part]
            other = {'M': [], 'J': [(R1, R0)], 'R': [(J1, J0)]}[part]
            pairs = []
            for i in range(n):
                for j in range(n):
                    inab = ra[0] <= i < ra[1] and rb[0] <= j < rb[1]
                    inba = rb[0] <= i < rb[1] and ra[0] <= j < ra[1]
                    if inab:
                        exp = new[i - ra[0], j - rb[0]]
                    elif inba and part == 'J':
                        exp = -new[j - ra[0], i - rb[0]]
                    elif inba and part == 'R':
                        exp = new[j - ra[0], i - rb[0]]
                    else:
                        exp = old[i, j]
                    pairs.append(('%s_%d_%d' % (key, i, j), tgt[i, j], exp))
                    for k, (o1, o0) in enumerate(other):
                        pairs.append(('%s_other_%d_%d' % (key, i, j), o1[i, j], o0[i, j]))
            for i in range(ni):
                for j in range(nj):
                    pairs.append(('%s_get_%d_%d' % (key, i, j), got[i, j], new[i, j]))
            s.prove_all(key, pairs)


def fresh(s, part, dims, tier):
    """mutators on a core whose M was never initialised: everything else is zero"""
    for a, b in (('x', 'w'), ('w', 'x'), ('x', 'y'), ('y', 'x'), ('w', 'y'), ('y', 'w'),
                 ('x', 'x'), ('w', 'w'), ('y', 'y')):
        core = make(*dims, symbolic=False)
        core.M = sp.SparseMatrix(sp.zeros(0, 0))
        rg = ranges(core)
        n = core.dims.tot()
        (a0, a1), (b0, b1) = rg[a], rg[b]
        blk = sp.Matrix(a1 - a0, b1 - b0, lambda i, j: S('n%d_%d' % (i, j)))
        if a == b and part == 'J':
            blk = blk - blk.T
        if a == b and part == 'R':
            blk = blk + blk.T
        getattr(core, 'set_%s%s%s' % (part, a, b))(blk)
        if not s.expect('shape_%s%s' % (a, b), core.M.shape == (n, n), 'M has the full dimension'):
            continue
        E = sp.zeros(n, n)
        E[a0:a1, b0:b1] = blk
        if part in 'JR' and a != b:
            E[b0:b1, a0:a1] = -blk.T if part == 'J' else blk.T
        if part == 'R':
            E = -E
        s.prove_all('fresh', [('%s%s_%d_%d' % (a, b, i, j), core.M[i, j], E[i, j])
                               for i in range(n) for j in range(n)])


def parts(s, dims, tier):
    core = make(*dims)
    n = core.dims.tot()
    J, R, M = core.J(), core.R(), core.M
    s.prove_all('parts', [(nm + '_%d_%d' % (i, j), l, r) for i in range(n) for j in range(n)
                           for nm, l, r in (('skew', J[i, j], -J[j, i]), ('sym', R[i, j], R[j, i]),
                                            ('sum', J[i, j] - R[i, j], M[i, j]))])
    rg = ranges(core)
    for part, full in (('M', M), ('J', J), ('R', R)):
        pairs = []
        for a in NAMES:
            for b in NAMES:
                g = getattr(core, '%s%s%s' % (part, a, b))()
                (a0, a1), (b0, b1) = rg[a], rg[b]
                if not s.expect('acc_%s%s%s' % (part, a, b), g.shape == (a1 - a0, b1 - b0),
                                'block accessor shape'):
                    continue
                pairs += [('acc_%s%s%s_%d_%d' % (part, a, b, i, j), g[i, j], full[a0 + i, b0 + j])
                          for i in range(a1 - a0) for j in range(b1 - b0)]
        s.prove_all(part, pairs)
    lab = core.labels()
    s.expect('labels', [str(v) for v in lab] == [str(v) for v in
             core.x + core.w + core.y + core.cy], 'labels follow the rows of M')


def balance(s, dims, tier):
    """dH/dt + dissipated + u.y = 0 along b = M a"""
    nxl, nxn, nwl, nwn, ny, _ = dims
    core = Core('c')
    xs = [S('x%d' % i) for i in range(nxl + nxn)]
    if xs:
        core.add_storages(xs, sp.Function('H')(*xs))
    ws = [S('w%d' % i) for i in range(nwl + nwn)]
    if ws:
        core.add_dissipations(ws, [sp.Function('z%d' % i)(w) for i, w in enumerate(ws)])
    us = [S('u%d' % i) for i in range(ny)]
    if us:
        core.add_ports(us, [S('y%d' % i) for i in range(ny)])
    core.init_M()
    n = core.dims.tot()
    core.M = sp.SparseMatrix(n, n, lambda i, j: S('m%d_%d' % (i, j)))
    a = core.a()
    s.expect('len_a', len(a) == n and len(core.b()) == n, 'a and b have the dimension of M')
    dxH = [sp.diff(core.H, x) for x in xs]
    for i, (l, r) in enumerate(zip(a, dxH + core.z + us)):
        s.prove_eq('a_%d' % i, l, r)
    Ma = [sum(core.M[i, j] * aj for j, aj in enumerate(dxH + core.z + us)) for i in range(n)]
    nx, nw = len(xs), len(ws)
    total = sum(g * b for g, b in zip(dxH, Ma[:nx])) + sum(u * y for u, y in zip(us, Ma[nx + nw:]))
    total += core.pd()
    s.prove_eq('balance', total, sum(z * (w - b) for z, w, b in zip(core.z, ws, Ma[nx:nx + nw])),
               what='dH/dt + pd + u.y vs 0 on solutions of b=M.a')


def growth(s, tier):
    """adding components after the structure was set never leaves a stale M behind"""
    core = Core('c')
    core.add_storages(S('x0'), sp.Function('h')(S('x0')))
    core.add_ports(S('u0'), S('y0'))
    core.set_Jxy([[S('j')]])
    core.add_dissipations([S('w0'), S('w1')], [S('w0'), S('w1')])
    core.set_Jxw([[S('a'), S('b')]])
    n = core.dims.tot()
    s.expect('dim', core.M.shape == (n, n) and n == 4, 'M has the dimension of the system')
    J = core.Jxw()
    for i, v in enumerate((S('a'), S('b'))):
        s.prove_eq('Jxw_%d' % i, J[0, i], v)
        s.prove_eq('Jwx_%d' % i, core.Jwx()[i, 0], -v)


def scenarios(tier):
    out = []
    dimss = [(1, 1, 1, 1, 1, 0), (2, 1, 1, 2, 2, 0), (1, 1, 1, 1, 1, 2), (0, 2, 2, 0, 1, 0),
             (2, 0, 0, 1, 2, 2)]
    if tier != 'quick':
        dimss += [(0, 0, 1, 2, 2, 0), (3, 0, 0, 0, 3, 0), (1, 2, 2, 1, 2, 2), (2, 2, 1, 2, 3, 2)]
    for d in dimss:
        t = '_'.join(map(str, d))
        for part in 'MJR':
            out.append(('blocks_%s_%s' % (part, t), blocks, dict(part=part, dims=d, tier=tier)))
            if d[5] == 0:
                out.append(('fresh_%s_%s' % (part, t), fresh, dict(part=part, dims=d, tier=tier)))
        out.append(('parts_' + t, parts, dict(dims=d, tier=tier)))
        out.append(('balance_' + t, balance, dict(dims=d, tier=tier)))
    out.append(('growth', growth, dict(tier=tier)))
    return out
