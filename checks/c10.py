"""C10: the system derived from a graph is the circuit of that graph."""
import itertools
import random
import sympy as sp
from vlib.env import import_pyphs, cramer_inverse, SEED
pyphs = import_pyphs()
cramer_inverse()
from vlib.graphs import Circuit, quiet, D, S  # noqa
from pyphs.graphs.exceptions import CanNotUnlock, UndefinedPotential  # noqa
from pyphs.core.core import Core  # noqa

META = dict(
    explanation='graphs are built from the dictionary with symbolic component values, and analysed, merged and '
    'turned into a core by the real code. Kirchhoff\'s node and loop laws of the same list of edges are written '
    'independently, as the space of all (flux, effort) spanned by free potentials and loop currents; z3 proves, for '
    'all of them and for all ratios, that every row of b = M a holds on that space (the two spaces have the same '
    'dimension, so they are equal), that each storage, dissipation and connector carries its documented law, and '
    'for connected and merged systems that every transfer function from inputs to outputs is that of the circuit, '
    'for all component values and all complex frequencies.',
    bounds=['exhaustive families of circuits with up to 4 nodes and 5 components and hand-written ones with up to '
            '10 edges: series, parallel, bridges, ladders, floating parts, transformers and gyrators in every '
            'control, nonlinear components of every control'],
    outside=['circuits the analysis refuses (it raises)', 'merging of nonlinear components beyond the listed laws',
             'plots'],
    assumptions=['real arithmetic', 'components merged or connected are well posed (non-zero denominators)'],
    functions=['Graph.to_core', 'Graph.perform_analysis', 'GraphAnalysis.perform', 'buildCore', 'SubGraph.merge_*',
               'Graph.sp_split', 'Graph.sp_assemble', 'link_connector', 'Connector', 'Core.connect'])

MIRROR = 'transformer_with_flux_controlled_first_edge'


def mirrored(g, c):
    """labels of the transformers the analysis of g made flux-controlled on their first edge"""
    an = g.analysis
    fc = {str(an.get_edge_data(e, 'label')) for e in an.fc_edges}
    return [lab for k, lab, p, q, al in c.links if k == 'T' and 'y' + p.name in fc]


REFUSED = (CanNotUnlock, UndefinedPotential, AssertionError, ValueError)


def a_b(core, c, s, tag):
    """flux and effort of every edge as written by the core: list of (b, row of M, name), values of a"""
    rows, vals = [], {}
    names = []
    by = c.by
    for x in core.x:
        names.append(('x', str(x)[1:]))
    for w in core.w:
        names.append(('w', str(w)[1:]))
    for y in core.y:
        names.append(('y', str(y)[1:]))
    for y in core.cy:
        names.append(('c', str(y)[1:]))
    ok = sorted(n for _, n in names) == sorted(by) and core.M.shape == (len(names), len(names))
    s.expect(tag + 'components', ok, 'the components of the core %s are not those of the circuit %s' % (
        names, sorted(by)))
    return names if ok else None


def number(expr, seed=3):
    r = random.Random(seed)
    return sp.sympify(expr).subs({q: sp.Rational(r.randint(3, 999), 7)
                                  for q in sorted(expr.free_symbols, key=str)}).evalf(30)


def same(a, b):
    return all(abs(number(sp.sympify(a) - sp.sympify(b), k)) < 1e-12 for k in (1, 2))


def storage_law(e, x):
    return {'C': x / S('c' + e.name), 'L': x / S('l' + e.name), 'K': S('k' + e.name) * x**3 + x,
            'M': S('k' + e.name) * x**3 + x}[e.kind]


def dissipation_laws(e, w):
    if e.kind == 'R':
        return w / S('r' + e.name), S('r' + e.name) * w
    return S('r' + e.name) * w**3 + w, w / (1 + w**2) * S('r' + e.name)


def circuit(s, comps, order=None, again=0, assign=False, label=None):
    """core before the connection of the connectors, against the laws"""
    c = Circuit(comps)
    g = quiet(c.graph, order)
    for k in range(again + 1):
        tag = '' if not k else 'again%d_' % k
        if again and k == again:
            core = quiet(g.to_core, connect=False)
        elif again:
            core = quiet(g.to_core, connect=(k == 0))
            if k == 0:
                continue
        else:
            core = quiet(g.to_core, connect=False)
        laws_of(s, c, core, tag)


def laws_of(s, c, core, tag):
    names = a_b(core, c, s, tag)
    if names is None:
        return
    rep, free = c.kirchhoff()
    by = c.by
    ctrl = {}
    # laws of the components, and the causality they use
    H = core.H
    for x in core.x:
        e = by[str(x)[1:]]
        s.prove_eq(tag + 'law_' + e.name, sp.diff(H, x), storage_law(e, x), what='storage law')
        ctrl[e.name] = 'f' if e.kind in 'CM' else 'e'
    for w, z in zip(core.w, core.z):
        e = by[str(w)[1:]]
        ze, zf = dissipation_laws(e, w)
        # 'e': w is the effort, z the flux
        use = 'e' if (e.kind == 'E' or (e.kind != 'F' and same(z, ze))) else 'f'
        s.prove_eq(tag + 'law_' + e.name, z, ze if use == 'e' else zf, what='dissipation law',
                   assume=[sp.Ne(S('r' + e.name), 0)])
        ctrl[e.name] = use
    for u, y in zip(core.u, core.y):
        e = by[str(y)[1:]]
        s.expect(tag + 'port_' + e.name, str(u)[1:] == e.name, 'input of the port')
        if e.kind in 'VI':
            ctrl[e.name] = 'f' if e.kind == 'V' else 'e'
    M = sp.Matrix(core.M)
    opts = [[dict([(n, k)]) for k in 'ef'] for t, n in names if t == 'y' and n not in ctrl]
    for k, lab, p, q, al in c.links:
        opts.append([{p.name: 'e', q.name: 'e'}, {p.name: 'f', q.name: 'f'}] if k == 'G' else
                    [{p.name: 'e', q.name: 'f'}, {p.name: 'f', q.name: 'e'}])

    def residual(ctrl):
        b = [sp.expand(rep[by[n].e] if ctrl[n] == 'e' else rep[by[n].f]) for _, n in names]
        a = [sp.expand(rep[by[n].f] if ctrl[n] == 'e' else rep[by[n].e]) for _, n in names]
        return [(b[i], sum(M[i, j] * a[j] for j in range(len(a)))) for i in range(len(b))]
    best = None
    for choice in itertools.product(*opts):
        cc = dict(ctrl)
        for d in choice:
            cc.update(d)
        r = residual(cc)
        bad = sum(not same(p, q) for p, q in r)
        if best is None or bad < best[0]:
            best = (bad, cc, r)
    bad, ctrl, r = best
    s.prove_all(tag + 'kirchhoff', [(names[i][1], p, q) for i, (p, q) in enumerate(r)], what='every flux and effort allowed by Kirchhoff\'s laws satisfies b = M a')
    # connectors
    cs = list(core.connectors)
    s.expect(tag + 'nconn', len(cs) == len(c.links), 'connectors are kept')
    if len(cs) != len(c.links):
        return
    for k, lab, p, q, al in c.links:
        mine = [d for d in cs if sorted(map(str, d['y'])) == ['y' + p.name, 'y' + q.name]]
        s.expect(tag + 'conn_' + lab, len(mine) == 1 and all(
            str(u)[1:] == str(y)[1:] for u, y in zip(mine[0]['u'], mine[0]['y'])), 'connector of ' + lab)
        if len(mine) != 1:
            continue
        d = mine[0]
        # values of u and y allowed by the documented law, for free flux f, effort e
        f, e = S('f_' + lab), S('e_' + lab)
        if k == 'G':        # e_A = -al f_B, e_B = al f_A
            val = {p.name: (f, e), q.name: (-e / al, al * f)}
        else:               # f_A = -al f_B, e_B = al e_A
            val = {p.name: (f, e), q.name: (-f / al, al * e)}
        yv = {n: val[n][1 if ctrl[n] == 'e' else 0] for n in val}
        uv = {n: val[n][0 if ctrl[n] == 'e' else 1] for n in val}
        n0, n1 = (str(y)[1:] for y in d['y'])
        if k == 'T' and ctrl[p.name] == 'f' and n0 == p.name and same(d['alpha'], al):
            # known finding: with a flux-controlled first edge the law is e_A = -al e_B, f_B = al f_A
            s.prove_all(tag + 'mirror_' + lab, [(n0, -al * e, -d['alpha'] * e), (n1, al * f, d['alpha'] * f)],
                        what='law of the transformer with a flux-controlled first edge')
            s.violate(MIRROR, 'transformer %s' % lab, dict(alpha=str(d['alpha']), y=str(d['y'])))
            continue
        s.prove_all(tag + 'ratio_' + lab, [(n0, uv[n0], -d['alpha'] * yv[n1]), (n1, uv[n1], d['alpha'] * yv[n0])],
                    assume=[sp.Ne(al, 0)], what='documented law of the connector')


# ---------------------------------------------------------------------------------------- transfer functions
def circuit_transfer(c, mirror=()):
    """outputs of the circuit as functions of its inputs, Kirchhoff's laws and impedances at complex frequency s"""
    s_ = S('s')
    rep, free = c.kirchhoff()
    eqs = [q.xreplace(rep) for q in c.laws(mirror)]
    ins = {}
    for e in c.edges:
        f, v = rep[e.f], rep[e.e]
        if e.kind == 'R':
            eqs.append(v - S('r' + e.name) * f)
        elif e.kind == 'L':
            eqs.append(v - s_ * S('l' + e.name) * f)
        elif e.kind == 'C':
            eqs.append(s_ * S('c' + e.name) * v - f)
        elif e.kind == 'V':
            eqs.append(v - S('u' + e.name))
            ins[e.name] = f
        elif e.kind == 'I':
            eqs.append(f - S('u' + e.name))
            ins[e.name] = v
    A, b = sp.linear_eq_to_matrix([sp.expand(q) for q in eqs], free)
    return A, b, free, ins


def solve_lin(A, b, rows=None):
    """x = A^-1 b by Cramer's rule, over polynomials (sympy's ring arithmetic)"""
    n = A.rows
    syms = sorted(A.free_symbols | b.free_symbols, key=str)
    R = sp.QQ[tuple(syms)] if syms else sp.QQ
    # Bareiss fraction free elimination on [A | b]
    m = [[R.from_sympy(sp.nsimplify(sp.expand(A[i, j]))) for j in range(n)] +
         [R.from_sympy(sp.nsimplify(sp.expand(b[i, j]))) for j in range(b.cols)] for i in range(n)]
    prev = R.one
    sign = 1
    for k in range(n):
        piv = None
        for i in range(k, n):
            if m[i][k]:
                if piv is None or len(str(m[i][k])) < len(str(m[piv][k])):
                    piv = i
        if piv is None:
            return None
        m[k], m[piv] = m[piv], m[k]
        for i in range(n):
            if i == k:
                continue
            for j in range(n + b.cols):
                if j != k:
                    m[i][j] = R.exquo(m[k][k] * m[i][j] - m[i][k] * m[k][j], prev)
            m[i][k] = R.zero
        prev = m[k][k]
    return [[(R.to_sympy(m[i][n + j]), R.to_sympy(m[i][i])) for j in range(b.cols)] for i in range(n)]


def core_transfer(core):
    """outputs of a linear core as functions of its inputs at complex frequency s"""
    s_ = S('s')
    x, w, u = list(core.x), list(core.w), list(core.u)
    M = sp.Matrix(core.M)
    dxH = [sp.diff(core.H, v) for v in x]
    z = list(core.z)
    eff = dxH + z + u
    unk = x + w
    nx, nw = len(x), len(w)
    eqs = []
    for i in range(nx):
        eqs.append(s_ * x[i] - sum(M[i, j] * eff[j] for j in range(len(eff))))
    for i in range(nw):
        eqs.append(w[i] - sum(M[nx + i, j] * eff[j] for j in range(len(eff))))
    eqs = [sp.numer(sp.together(q)) for q in eqs]
    A, b = sp.linear_eq_to_matrix([sp.expand(q) for q in eqs], unk) if unk else (sp.zeros(0), sp.zeros(0, 1))
    ys = [sum(M[nx + nw + i, j] * eff[j] for j in range(len(eff))) for i in range(len(u))]
    return A, b, unk, dict(zip([str(y)[1:] for y in core.y], ys))


def transfer(s, comps, merge_all=False, order=None, again=0, merged=None, tag=''):
    """connected (and merged) core against the circuit, at every complex frequency"""
    c = Circuit(comps)
    g = quiet(c.graph, order)
    for k in range(again + 1):
        core = quiet(g.to_core, merge_all=merge_all)
    s.expect(tag + 'closed', not core.connectors and not core.cy, 'all connectors are connected')
    if merged is not None:
        n = sum(e.kind in 'CLR' for e in c.edges)
        s.expect(tag + 'merged', len(core.x) + len(core.w) <= n - merged, 'compatible components are merged: %s %s' % (
            core.x, core.w))
    A, b, free, outs = circuit_transfer(c, mirrored(g, c))
    sol = solve_lin(A, b)
    if sol is None:
        raise RuntimeError('ill-posed circuit in the family: %s' % (comps,))
    A2, b2, unk, outs2 = core_transfer(core)
    s.expect(tag + 'ports', sorted(outs) == sorted(outs2), 'ports of the core')
    sol2 = solve_lin(A2, b2) if unk else []
    if sol2 is None:
        return s.violate(tag + 'singular', 'the core has no transfer function', {})
    sub = {v: p[0][0] / p[0][1] for v, p in zip(free, sol)}
    sub2 = {v: p[0][0] / p[0][1] for v, p in zip(unk, sol2)}
    s.prove_all(tag + 'transfer', [(n, sp.sympify(outs[n]).xreplace(sub), sp.sympify(outs2[n]).xreplace(sub2)) for n in outs],
                what='same outputs at every frequency and for all component values')


# ---------------------------------------------------------------------------------------- families
LADDER = [('V', 'in', (D, 'A')), ('R', '1', ('A', 'B')), ('C', '1c', ('B', D)), ('L', '2', ('B', 'E')),
          ('R', '2r', ('E', 'F')), ('C', '3', ('F', D)), ('R', '3r', (D, 'F'))]
BRIDGE = [('V', 'in', (D, 'A')), ('R', '0', ('A', 'P')), ('R', '1', ('P', 'B')), ('C', '2', ('B', D)),
          ('L', '3', ('P', 'E')), ('R', '4', (D, 'E')), ('R', '5', ('E', 'B'))]
TWIN = [('V', 'in', (D, 'A')), ('R', '1', ('A', 'B')), ('R', '2', ('B', 'O')), ('C', '3', ('B', D)),
        ('C', '4', ('A', 'E')), ('C', '5', ('E', 'O')), ('R', '6', ('E', D)), ('R', '7', ('O', D))]
NONLIN = [('V', 'in', (D, 'A')), ('R', '0', ('A', 'B')), ('N', 'd', ('B', 'E')), ('M', 'c', ('E', D)),
          ('E', 'q', ('B', D)), ('R', '9', (D, 'E'))]
NONLIN2 = [('I', 'in', ('A', D)), ('K', 'm', ('A', D)), ('N', 'd', (D, 'A')), ('F', 'q', ('A', 'B')),
           ('M', 'c', ('B', D)), ('R', '1', ('B', D))]
OPEN = [('P', 'in', (D, 'A')), ('R', '0', ('A', 'B')), ('C', '1', ('B', D)), ('P', 'out', ('B', 'E')),
        ('L', '2', ('E', D))]


def coupled(kind, left, right, rev=0, far=D):
    """two one-ports (lists of components between 'A'/datum and 'B'/far) around a connector"""
    a = ('A', D) if not rev & 1 else (D, 'A')
    b = ('B', far) if not rev & 2 else (far, 'B')
    return left + [(kind, 'k', a + b)] + right


LEFT = {'v': [('V', 'in', ('A', D)), ('R', '1', ('A', D))],
        'vr': [('V', 'in', (D, 'I')), ('R', '1', ('I', 'A'))],
        'i': [('I', 'in', (D, 'A')), ('R', '1', ('A', D))],
        'vl': [('V', 'in', (D, 'I')), ('L', '1', ('I', 'A'))],
        'ic': [('I', 'in', (D, 'A')), ('C', '1', (D, 'A'))]}


def right(kind, far=D):
    return {'c': [('C', '2', ('B', far))], 'l': [('L', '2', (far, 'B'))], 'r': [('R', '2', ('B', far))],
            'rc': [('R', '2', ('B', 'E')), ('C', '3', ('E', far))],
            'lr': [('L', '2', ('B', far)), ('R', '3', ('B', far))],
            'rl': [('R', '2', ('E', 'B')), ('L', '3', ('E', far))]}[kind]


CHAIN2 = LEFT['vr'] + [('G', 'k', ('A', D, 'B', D)), ('C', '2', ('B', D)), ('T', 'm', ('B', D, 'E', D)),
                       ('R', '4', ('E', 'H')), ('C', '5', ('H', D))]
CHAIN3 = LEFT['vl'] + [('G', 'k', ('A', D, 'B', D)), ('L', '2', ('B', D)), ('G', 'm', (D, 'B', 'E', D)),
                       ('R', '4', ('E', D)), ('L', '5', ('E', D))]

SERIES_PARALLEL = {
    'cc_par': ([('V', 'in', (D, 'A')), ('R', '0', ('A', 'B')), ('C', '1', ('B', D)), ('C', '2', (D, 'B'))], 1),
    'ccc_par': ([('V', 'in', (D, 'A')), ('R', '0', ('A', 'B')), ('C', '1', ('B', D)), ('C', '2', (D, 'B')),
                 ('C', '3', ('B', D))], 2),
    'll_ser': ([('V', 'in', (D, 'A')), ('L', '1', ('A', 'B')), ('L', '2', ('E', 'B')), ('R', '0', ('E', D))], 1),
    'll_ser2': ([('V', 'in', (D, 'A')), ('L', '1', ('B', 'A')), ('R', '0', ('B', 'E')), ('L', '2', ('E', D))], 1),
    'lll_ser': ([('V', 'in', (D, 'A')), ('L', '1', ('A', 'B')), ('L', '2', ('E', 'B')), ('R', '0', ('E', 'H')),
                 ('L', '3', ('H', D))], 2),
}


def small(n, nodes):
    """every circuit of the family: a source between the datum and A, and n components R, L, C anywhere"""
    pairs = list(itertools.combinations(nodes, 2))
    for src in 'VI':
        for kinds in itertools.combinations_with_replacement('RLC', n):
            for places in itertools.product(pairs, repeat=n):
                yield [(src, 'in', (D, 'A'))] + [(k, str(i), p) for i, (k, p) in enumerate(zip(kinds, places))]


def family(s, n, nodes, start, step, merge=3):
    """every `step`-th circuit of the family: laws if nothing is merged, transfer functions otherwise"""
    done = refused = 0
    for m, comps in enumerate(small(n, nodes)):
        if m % step != start:
            continue
        rnd = random.Random(SEED * 7919 + m)
        comps = [(c[0], c[1], c[2][::-1] if rnd.random() < .5 else c[2]) for c in comps]
        rnd.shuffle(comps)
        used = {q for c in comps for q in c[2]}
        if len(used) < len(nodes) - (len(nodes) > 3) or D not in used:
            continue
        c = Circuit(comps)
        try:
            core = quiet(quiet(c.graph).to_core, connect=False)
        except Exception:
            refused += 1
            continue
        tag = 'g%d_' % m
        done += 1
        if len(core.x) + len(core.w) == n:
            laws_of(s, c, core, tag)
        else:
            transfer(s, comps, tag=tag)
        if done % merge == 0:
            try:
                quiet(quiet(c.graph).to_core, merge_all=True)
            except Exception:
                continue
            transfer(s, comps, merge_all=True, tag=tag + 'all_')
    s.expect('some', done > refused // 20, 'the analysis accepts circuits of the family (%d, %d refused)' % (done, refused))


# ---------------------------------------------------------------------------------------- merged nonlinear laws
def merged_law(s, kind, flip, merge_all=False, n=2):
    """nonlinear components in parallel (a current source feeds them): the merged component carries their
    common effort (storages that impose it: charges add; storages and dissipations driven by it: fluxes add)"""
    lab = [str(i + 1) for i in range(n)]
    sg = [-1 if flip >> i & 1 else 1 for i in range(n)]
    k = [S('k' + l) for l in lab]
    law = {'exp': lambda v, q: q * (sp.exp(v) - 1), 'lin': lambda v, q: v / q,
           'quad': lambda v, q: q * v + v**2 / 2 + v**3}[kind.split('_')[1]]
    what, ctrl = kind.split('_')[0][:1], kind.split('_')[0][1:]
    from pyphs.dictionary import edges as dic_edges
    from pyphs import Graph
    g = Graph(label='m')
    g += dic_edges.Port('in', ('J', D), ctrl='e')
    g += dic_el_r('s', ('J', 'A'))
    for i, l in enumerate(lab):
        nodes = ('A', D) if sg[i] == 1 else (D, 'A')
        if what == 's':
            x = S('x' + l)
            H = sp.integrate(law(x, k[i]), x)
            g += dic_edges.StorageNonLinear(l, [(nodes[0], nodes[1], dict(
                label=x, type='storage', link=None, ctrl=ctrl))], [x], H)
        else:
            w = S('w' + l)
            g += dic_edges.DissipativeNonLinear(l, [(nodes[0], nodes[1], dict(
                label=w, type='dissipative', link=None, ctrl=ctrl,
                z={ctrl + '_ctrl': law(w, k[i]), 'ef'['e' == ctrl] + '_ctrl': sp.Integer(0)}))], [w], [law(w, k[i])])
    if not (what == 's' and ctrl == 'f') and not (what == 'd' and ctrl == 'f'):
        g += dic_el_r('r', ('A', D))
    core = quiet(g.to_core, merge_all=merge_all)
    names = list(core.x) + [w for w in core.w if str(w) not in ('wr', 'ws')]
    if s.expect('one', len(names) == 1, 'the components are merged into one: %s' % names) is False:
        return
    X = names[0]
    u = core.u[0]
    M = sp.Matrix(core.M)
    eff = [sp.diff(core.H, v) for v in core.x] + list(core.z) + list(core.u)
    rows = [sum(M[i, j] * eff[j] for j in range(len(eff))) for i in range(len(eff))]
    v = S('v')
    R, Rs = S('rr'), S('rs')
    ws, wr = S('ws'), S('wr')
    W = {str(w): (i + len(core.x), core.z[i]) for i, w in enumerate(core.w)}

    def resistor(name, r, flux):
        """value of w of a resistor with this flux, in the control the core uses"""
        w = S(name)
        return flux if same(W[name][1], r * w) else flux * r
    best = None
    for o in (1, -1):
        uu = u
        if what == 's' and ctrl == 'f':
            # e = law_i(o_i x_i) o_i for all i; X = sum o_i x_i; witness: v = o_1 x_1
            e = sg[0] * law(sg[0] * v, k[0])
            xs = [v]
            for i in range(1, n):
                xs.append(e * k[i] if 'lin' in kind else sg[i] * sp.log(1 + sg[i] * e / k[i]))
            sub = {X: o * sum(xs)}
            pairs = [('dx', 0, -o * u)]
        elif what == 's':
            # common integrated effort: o_i x_i = X; fluxes add
            f = sum(sg[i] * law(sg[i] * v, k[i]) for i in range(n))
            e = (-u - f) * R
            sub = {X: o * v}
            pairs = [('dx', 0, o * e)]
        else:
            f = sum(sg[i] * law(sg[i] * v, k[i]) for i in range(n))
            uu = -f - v / R
            e = v
            sub = {X: o * v, u: uu}
            pairs = [('w', W[str(X)][0], o * v)]
        sub[ws] = resistor('ws', Rs, -uu)
        pairs.append(('ws', W['ws'][0], sub[ws]))
        if 'wr' in W:
            sub[wr] = resistor('wr', R, e / R)
            pairs.append(('wr', W['wr'][0], sub[wr]))
        pairs.append(('y', len(rows) - 1, e - Rs * uu))
        pairs = [(nm, rows[i].xreplace(sub), val) for nm, i, val in pairs]
        bad = sum(not same(p.subs(v, v / 500), q.subs(v, v / 500)) for _, p, q in pairs)
        if best is None or bad < best[0]:
            best = (bad, pairs)
    asm = [sp.Gt(q, 0) for q in k]
    if 'exp' in kind:
        asm += [sp.Lt(sp.exp(v), sp.Rational(3, 2)), sp.Gt(sp.exp(v), sp.Rational(3, 4))]
        kk = {q: S('k') for q in k}
        best = (0, [(a_, p.xreplace(kk), q.xreplace(kk)) for a_, p, q in best[1]])
        asm[0] = sp.Gt(S('k'), 0)
    s.prove_all('law', best[1], assume=asm[:1] + asm[len(k):] if 'exp' in kind else asm,
                what='merged component, for every state and input')


def merged_serial(s, kind, flip, first=0, merge_all=True, n=2):
    """nonlinear components in series (a voltage source feeds them): the merged component carries their
    common flux (storages whose flux is imposed, dissipations driven by it: efforts add; storages that
    impose it: states add)"""
    lab = [str(i + 1) for i in range(n)]
    sg = [-1 if flip >> i & 1 else 1 for i in range(n)]
    k = [S('k' + l) for l in lab]
    law = {'exp': lambda v, q: q * (sp.exp(v) - 1), 'lin': lambda v, q: v / q,
           'quad': lambda v, q: q * v + q**2 * v**2 + v**3}[kind.split('_')[1]]
    what, ctrl = kind.split('_')[0][:1], kind.split('_')[0][1:]
    from pyphs.dictionary import edges as dic_edges
    from pyphs import Graph
    g = Graph(label='m')
    chain = 'se' != what + ctrl
    nodes = ['J'] + ['N%d' % i for i in range(n - (not chain))] + [D]
    todo = []
    for i, l in enumerate(lab):
        a, b = nodes[i:i + 2] if sg[i] == 1 else nodes[i:i + 2][::-1]
        if what == 's':
            x = S('x' + l)
            todo.append(dic_edges.StorageNonLinear(l, [(a, b, dict(
                label=x, type='storage', link=None, ctrl=ctrl))], [x], sp.integrate(law(x, k[i]), x)))
        else:
            w = S('w' + l)
            todo.append(dic_edges.DissipativeNonLinear(l, [(a, b, dict(
                label=w, type='dissipative', link=None, ctrl=ctrl,
                z={ctrl + '_ctrl': law(w, k[i]), 'ef'['e' == ctrl] + '_ctrl': sp.Integer(0)}))], [w], [law(w, k[i])]))
    if chain:
        todo.append(dic_el_r('r', (nodes[-2], D)))
    todo += [dic_edges.Port('in', ('J', D), ctrl='f'), dic_el_r('s', ('J', D))]
    for comp in todo[first:] + todo[:first]:
        g += comp
    core = quiet(g.to_core, merge_all=merge_all)
    names = list(core.x) + [w for w in core.w if str(w) not in ('wr', 'ws')]
    if s.expect('one', len(names) == 1, 'the components are merged into one: %s' % names) is False:
        return
    X, u = names[0], core.u[0]
    M = sp.Matrix(core.M)
    eff = [sp.diff(core.H, v) for v in core.x] + list(core.z) + list(core.u)
    rows = [sum(M[i, j] * eff[j] for j in range(len(eff))) for i in range(len(eff))]
    v, R, Rs = S('v'), S('rr'), S('rs')
    W = {str(w): (i + len(core.x), core.z[i]) for i, w in enumerate(core.w)}
    best = None
    for o in (1, -1):
        uu = u
        if what + ctrl == 'se':
            f = sg[0] * law(sg[0] * v, k[0])
            xs = [v]
            for i in range(1, n):
                xs.append(f * k[i] if 'lin' in kind else sg[i] * sp.log(1 + sg[i] * f / k[i]))
            sub = {X: o * sum(xs)}
            pairs = [('dx', 0, o * u)]
        else:
            e = sum(sg[i] * law(sg[i] * v, k[i]) for i in range(n))
            sub = {X: o * v}
            if what == 's':
                f = (u - e) / R
                pairs = [('dx', 0, o * f)]
            else:
                f, uu = v, e + R * v
                sub[u] = uu
                pairs = [('w', W[str(X)][0], o * v)]
        for name, r, flux in [('ws', Rs, uu / Rs)] + ([('wr', R, f)] if chain else []):
            w = S(name)
            sub[w] = flux if same(W[name][1], r * w) else flux * r
            pairs.append((name, W[name][0], sub[w]))
        pairs.append(('y', len(rows) - 1, -uu / Rs - f))
        pairs = [(nm, rows[i].xreplace(sub), val) for nm, i, val in pairs]
        bad = sum(not same(p.subs(v, v / 500), q.subs(v, v / 500)) for _, p, q in pairs)
        if best is None or bad < best[0]:
            best = (bad, pairs)
    asm = [sp.Gt(q, 0) for q in k + [R, Rs]]
    if 'exp' in kind:
        kk = {q: S('k') for q in k}
        best = (0, [(a_, p.xreplace(kk), q.xreplace(kk)) for a_, p, q in best[1]])
        asm = [sp.Gt(S('k'), 0), sp.Lt(sp.exp(v), sp.Rational(3, 2)), sp.Gt(sp.exp(v), sp.Rational(3, 4)),
               sp.Gt(R, 0), sp.Gt(Rs, 0)]
    s.prove_all('law', best[1], assume=asm, what='merged component, for every state and input')


def dic_el_r(lab, nodes):
    from pyphs.dictionary import electronics
    return electronics.Resistor(lab, nodes, R='r' + lab)


MERGE = {
    'rr_ser': [('V', 'in', (D, 'A')), ('R', '1', ('A', 'B')), ('R', '2', ('E', 'B')), ('C', '0', ('E', D))],
    'rrr_par': [('V', 'in', (D, 'A')), ('R', '1', ('A', 'B')), ('R', '2', ('A', 'B')), ('R', '3', ('B', 'A')),
                ('C', '0', ('B', D))],
    'rcr': [('V', 'in', (D, 'A')), ('R', '1', ('A', 'B')), ('C', '2', ('B', 'E')), ('R', '3', (D, 'E'))],
    'll_par': [('V', 'in', (D, 'A')), ('R', '1', ('A', 'B')), ('L', '2', ('B', D)), ('L', '3', (D, 'B'))],
    'cc_ser': [('V', 'in', (D, 'A')), ('R', '1', ('A', 'B')), ('C', '2', ('B', 'E')), ('C', '3', (D, 'E'))],
    'll_loop': [('V', 'in', (D, 'A')), ('L', '1', ('B', 'A')), ('R', '0', ('B', 'E')), ('L', '2', ('E', D))],
    'mix': [('V', 'in', (D, 'A')), ('R', '1', ('A', 'B')), ('L', '2', ('B', D)), ('L', '3', (D, 'B')),
            ('R', '4', ('B', 'E')), ('C', '5', ('E', 'F')), ('R', '6', (D, 'F'))]}


def scenarios(tier):
    out = []
    deep = tier == 'thorough'
    rnd = random.Random(SEED)

    def shuffled(comps):
        order = list(range(len(comps)))
        rnd.shuffle(order)
        return order
    big = dict(ladder=LADDER, bridge=BRIDGE, twin=TWIN, nonlin=NONLIN, nonlin2=NONLIN2, open=OPEN, chain2=CHAIN2,
               chain3=CHAIN3)
    for n, comps in big.items():
        for k in range(12 if deep else 2):
            order = shuffled(comps) if k else None
            out.append(('%s_%d' % (n, k), circuit, dict(comps=comps, order=order)))
        out.append(('%s_again' % n, circuit, dict(comps=comps, again=2)))
        if not n.startswith(('nonlin', 'open')):
            for al in (False, True):
                out.append(('tf_%s_%d' % (n, al), transfer, dict(comps=comps, merge_all=al, order=shuffled(comps))))
    for n, (comps, k) in SERIES_PARALLEL.items():
        for i in range(4 if deep else 1):
            if n in ('cc_par', 'ccc_par', 'll_ser'):
                out.append(('tf_%s_%d' % (n, i), transfer, dict(comps=comps, merged=k, order=shuffled(comps))))
                out.append(('tf_%s_again%d' % (n, i), transfer, dict(comps=comps, merged=k, again=1)))
            out.append(('tf_%s_all%d' % (n, i), transfer, dict(comps=comps, merge_all=True, order=shuffled(comps))))
    for n, comps in MERGE.items():
        for i in range(6 if deep else 1):
            out.append(('tf_%s_%d' % (n, i), transfer, dict(comps=comps, merge_all=True, order=shuffled(comps))))
    for kind in 'TG':
        for l in LEFT:
            for r in ('c', 'l', 'rc', 'lr', 'r', 'rl'):
                if kind + l + r in UNREALIZABLE:
                    continue
                for rev in (range(4) if deep else ((len(l) + len(r)) % 4,)):
                    comps = coupled(kind, LEFT[l], right(r), rev)
                    nm = '%s_%s_%s_%d' % (kind, l, r, rev)
                    out.append((nm, circuit, dict(comps=comps)))
                    out.append(('tf_' + nm, transfer, dict(comps=comps, merge_all=bool(rev & 1), again=rev >> 1)))
    for kind in ('sf_lin', 'sf_exp', 'se_lin', 'se_quad', 'se_exp', 'de_lin', 'de_quad', 'de_exp'):
        for flip in range(4) if deep or kind in ('sf_exp', 'se_quad', 'de_quad') else (1, 3):
            out.append(('law_%s_%d' % (kind, flip), merged_law, dict(
                kind=kind, flip=flip, merge_all=not kind.startswith('sf'))))
    for kind in ('df_lin', 'df_quad', 'df_exp', 'sf_lin', 'sf_quad', 'sf_exp', 'se_lin', 'se_exp'):
        for flip in range(4):
            for first in range(5 if deep else 1):
                out.append(('ser_%s_%d_%d' % (kind, flip, first), merged_serial, dict(
                    kind=kind, flip=flip, first=2 if kind[:2] == 'se' else (first or (flip * 3 + len(kind))) % 5, n=2)))
    for i in range(8):
        out.append(('family3_%d' % i, family, dict(n=3, nodes=(D, 'A', 'B'), start=i, step=8 if deep else 16)))
        if deep:
            out.append(('family4_%d' % i, family, dict(n=4, nodes=(D, 'A', 'B', 'E'), start=i, step=64, merge=2)))
            out.append(('family5_%d' % i, family, dict(n=5, nodes=(D, 'A', 'B', 'E'), start=i, step=1024, merge=2)))
    return out


# a source that imposes an effort (or a storage whose causality is incompatible) through the connector
UNREALIZABLE = {'Tvc', 'Tvll', 'Tvlrl', 'Ticc', 'Gvl', 'Gvrl', 'Gvlc', 'Gicl', 'Gicrl', 'Gvlrc'}
