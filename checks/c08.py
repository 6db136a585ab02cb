"""C08: sums, copies and saved systems are faithful and independent of their sources."""
import os
import shutil
import tempfile
import sympy as sp
from vlib.env import import_pyphs, cramer_inverse, SCRATCH
pyphs = import_pyphs()
cramer_inverse()
from vlib import cores  # noqa
from pyphs import Core  # noqa
S = cores.S
POLY = False


def F(name):
    # undefined functions cannot be pickled (a limit of sympy): smooth laws with symbolic coefficients
    return cores.F(name, False) if not POLY else (
        lambda *a: sum(S('k%d_%s' % (i, name)) * v**4 + sp.sinh(v) for i, v in enumerate(a)) + sp.Mul(*a))

META = dict(
    explanation='The real copy, save/load and addition are executed on cores with symbolic structure, '
    'laws, substitutions, observers and connectors. z3 proves, variable by variable and for all values '
    'of all symbols, that the result has the equations of its source(s); then the result (resp. the '
    'source) goes through mutating operations of the library and the other side is proved unchanged.',
    bounds=['two operands with up to 3 storages, 3 dissipations, 2 ports, 2 connectors each',
            'every single mutating operation from a list of 20 applied after the copy or the sum'],
    outside=['sums of systems that share variable names', 'files written by other versions'],
    assumptions=['real arithmetic', 'shelve/pickle return the object stored'],
    functions=['Core.__add__', 'Core.__copy__', 'Core.save', 'Core.load', 'Core.setsymb', 'Core.setexpr',
               'block mutators', 'move_*', 'reduce_z', 'connect', 'substitute', 'subsinverse', 'simplify'])


def snap(c):
    n = c.dims.tot()
    ok = c.M.shape == (n, n)
    names = ['x:%s' % v for v in c.x] + ['w:%s' % v for v in c.w] + ['y:%s' % v for v in c.y] + \
        ['cy:%s' % v for v in c.cy]
    exprs = {}
    if ok:
        for i, a in enumerate(names):
            for j, b in enumerate(names):
                exprs['M[%s,%s]' % (a, b)] = c.M[i, j]
    exprs['H'] = c.H
    for k, v in zip(c.x, c.dxH()):
        exprs['dxH[%s]' % k] = v
    for k, v in zip(c.w, c.z):
        exprs['z[%s]' % k] = v
    for k, v in c.subs.items():
        exprs['subs[%s]' % k] = sp.sympify(v)
    for k, v in c.observers.items():
        exprs['obs[%s]' % k] = v
    for i, k in enumerate(c.connectors):
        exprs['alpha[%s]' % '-'.join(map(str, k['u'] + k['y']))] = sp.sympify(k['alpha'])
    for nm in ('Q', 'Zl'):
        m = getattr(c, nm)
        for i in range(m.shape[0]):
            for j in range(m.shape[1]):
                exprs['%s[%d,%d]' % (nm, i, j)] = m[i, j]
    for i, v in enumerate(c.bl):
        exprs['bl[%d]' % i] = v
    extra = sorted(c.exprs_names - {'H', 'z', 'Q', 'Zl', 'bl'})
    for nm in extra:
        exprs['extra:' + nm] = getattr(c, nm, S('missing!'))
    syms = {nm: [str(v) for v in getattr(c, nm, [S('missing!')])] for nm in sorted(c.symbs_names)}
    conc = dict(syms=syms, dims=(c.dims.xl(), c.dims.wl(), c.dims.xnl_mono(), n), ok=ok,
                forced=sorted(map(str, c.force_wnl)), extra=extra,
                obs=[str(k) for k in c.observers], label=c.label,
                own=c._dxH is not None, conn=len(c.connectors))
    return conc, exprs


def same(s, tag, got, ref, skip=()):
    conc, ex = got
    rconc, rex = ref
    bad = [k for k in rconc if k not in skip and conc[k] != rconc[k]]
    ok = s.expect(tag + 'names', not bad and set(ex) == set(rex),
                  'variables, dimensions or entries differ: %s %s' % (
                      [(k, conc[k], rconc[k]) for k in bad][:2], sorted(set(ex) ^ set(rex))[:4]))
    if ok:
        s.prove_all(tag + 'values', [(tag + k, ex[k], rex[k]) for k in sorted(rex)],
                    what='entry of the system')


def rich(lab='', split=False):
    """a system with every kind of attribute"""
    c = Core('rich' + lab)
    v = lambda n: S(n + lab)  # noqa
    x = [v('x1'), v('x2'), v('x3')]
    c.add_storages(x, F('h' + lab)(x[0]) + v('q2') * x[1]**2 / 2 + x[2]**2 / (2 * v('L')))
    w = [v('w1'), v('w2'), v('w3')]
    c.add_dissipations(w, [F('z' + lab)(w[0]), v('r') * w[1] * v('o1'), w[2] / v('R')])
    c.add_ports([v('u%d' % i) for i in range(4)], [v('y%d' % i) for i in range(4)])
    c.add_parameters([v('p1'), v('p2')])
    cores.fullM(c, tag='m' + lab)
    M = sp.Matrix(c.M)
    M[0, 1] = v('p1') * x[0]
    M[2, 3] = v('k') * v('o1')
    c.M = sp.SparseMatrix(M)
    c.add_observer({v('o1'): x[1]**2 + v('p2')})
    c.subs.update({v('q2'): v('a')**2 + 1, v('r'): 3.5, v('L'): 2, v('R'): v('b')})
    c.force_wnl = [w[1]]
    if split:
        c.linear_nonlinear()
        c.monovar_multivar()
    c.add_connector((3, 1), v('al'))
    return c


def plain(lab=''):
    return rich(lab)


def was_split(lab=''):
    return rich(lab, True)


def extra(lab=''):
    c = rich(lab)
    c.setexpr('gain' + lab, S('k' + lab) * S('x1' + lab) + 1)
    c.setsymb('extra_symbols' + lab, [S('e' + lab)])
    return c


def own_grad(lab=''):
    c = rich(lab)
    c._dxH = [F('g%d%s' % (i, lab))(*c.x) for i in range(3)]
    return c


def empty(lab=''):
    return Core('empty' + lab)


def no_ports(lab=''):
    c = Core('np' + lab)
    c.add_storages([S('x9' + lab), S('x8' + lab)], F('hh' + lab)(S('x9' + lab), S('x8' + lab)))
    return cores.fullM(c, tag='n' + lab)


def no_storage(lab=''):
    c = Core('ns' + lab)
    c.add_dissipations(S('w9' + lab), F('zz' + lab)(S('w9' + lab)))
    c.add_ports([S('u9' + lab), S('u8' + lab)], [S('y9' + lab), S('y8' + lab)])
    return cores.fullM(c, tag='n' + lab)


def only_ports(lab=''):
    c = Core('op' + lab)
    c.add_ports([S('u9' + lab)], [S('y9' + lab)])
    return cores.fullM(c, tag='n' + lab)


def no_matrix(lab=''):
    """components without any interconnection yet"""
    c = Core('nm' + lab)
    c.add_storages(S('x9' + lab), F('hh' + lab)(S('x9' + lab)))
    c.add_ports([S('u9' + lab)], [S('y9' + lab)])
    c.init_M()
    return c


BUILD = [plain, was_split, extra, own_grad, empty, no_ports, no_storage, only_ports, no_matrix]


def copies(s, build, tier):
    ref = snap(build())
    c = build()
    same(s, 'copy_', snap(c.__copy__()), ref)
    same(s, 'source_', snap(c), ref)
    same(s, 'copy2_', snap(c.__copy__().__copy__()), ref)
    import copy
    same(s, 'module_', snap(copy.copy(c)), ref)


def saved(s, build, tier):
    global POLY
    POLY = True
    folder = tempfile.mkdtemp(dir=SCRATCH)
    try:
        c = build()
        ref = snap(build())
        c.save(folder=folder)
        same(s, 'source_', snap(c), ref)
        d = Core(label=c.label)
        d.load(folder=folder)
        same(s, 'load_', snap(d), ref)
        same(s, 'loadcopy_', snap(d.__copy__()), ref)
        c.save(folder=folder, label='other')
        d = Core(label='something')
        d.load(folder=folder, label='other')
        same(s, 'label_', snap(d), ref, skip=('label',))
        s.expect('label', d.label == 'other', 'label given to save')
        # saving again replaces the content
        c.add_ports(S('unew'), S('ynew'))
        c.init_M()
        c.save(folder=folder)
        d = Core(label=c.label)
        d.load(folder=folder)
        same(s, 'again_', snap(d), snap(c))
        # loading over a system replaces it
        e = rich('zz')
        e.load(folder=folder, label='other')
        same(s, 'over_', snap(e), ref, skip=('label', 'syms', 'extra') if build is extra else ('label',))
    finally:
        shutil.rmtree(folder)


def union(ca, ea, cb, eb):
    """the two systems side by side"""
    ex = {}
    for e in (ea, eb):
        for k, v in e.items():
            if k[:2] not in ('M[', 'Q[', 'Zl', 'bl') and k != 'H' and not k.startswith('extra'):
                ex[k] = v
    ex['H'] = ea['H'] + eb['H']
    return ex


def sums(s, a, b, tier):
    ca, cb = a('A'), b('B')
    ra, rb = snap(a('A')), snap(b('B'))
    c = ca + cb
    n = ca.dims.tot() + cb.dims.tot()
    syms = {k: ra[0]['syms'][k] + rb[0]['syms'][k] for k in ra[0]['syms']}
    ok = s.expect('shape', c.M.shape == (n, n) and c.dims.tot() == n and len(c.z) == len(c.w),
                  'dimensions of the sum')
    ok = s.expect('symbols', {k: [str(v) for v in getattr(c, k)] for k in syms} == syms and
                  c.symbs_names == ca.symbs_names, 'variables of the sum') and ok
    if ok:
        (cc, ce) = snap(c)
        ref = union(ra[0], ra[1], rb[0], rb[1])
        rows = [k for k in ce if k.startswith('M[')]
        for k in rows:
            ref[k] = ra[1].get(k, rb[1].get(k, sp.Integer(0)))
        miss = sorted(k for k in set(ref) ^ set(ce) if not k.startswith(('Q[', 'Zl', 'bl', 'extra')))
        if s.expect('entries', not miss, 'entries lost or added by the sum: %s' % miss[:4]):
            s.prove_all('sum', [('sum_' + k, ce[k], ref[k]) for k in sorted(ref) if k in ce],
                        what='equations of the sum vs side by side')
        s.expect('side', cc['forced'] == sorted(ra[0]['forced'] + rb[0]['forced']) and
                 cc['obs'] == ra[0]['obs'] + rb[0]['obs'] and
                 cc['conn'] == ra[0]['conn'] + rb[0]['conn'], 'observers, exclusions, connectors')
        k = c.dims.xl()
        s.expect('split', 0 <= k <= len(c.x) and c.Q.shape[0] == k and c.Zl.shape[0] == c.dims.wl(),
                 'split dimensions consistent')
    same(s, 'left_', snap(ca), ra)
    same(s, 'right_', snap(cb), rb)


def _conn(c):
    c.add_connector((0, 1), S('be'))


MUT = dict(
    move_storage=lambda c: c.move_storage(0, 2), move_dissipative=lambda c: c.move_dissipative(2, 0),
    move_port=lambda c: c.move_port(1, 0), move_connector=lambda c: c.move_connector(0, 1),
    split=lambda c: c.linear_nonlinear(), mono=lambda c: c.monovar_multivar(),
    reduce=lambda c: c.reduce_z(), connect=lambda c: c.connect(), connector=_conn,
    substitute=lambda c: c.substitute(selfall=True), selfexprs=lambda c: c.substitute(selfexprs=True),
    subs=lambda c: c.substitute(subs={c.x[0]: S('newx'), S('al'): S('bb')}),
    subsinverse=lambda c: c.subsinverse(), simplify=lambda c: c.simplify(),
    stor=lambda c: c.add_storages(S('xn'), S('xn')**2), diss=lambda c: c.add_dissipations(S('wn'), S('wn')),
    ports=lambda c: c.add_ports(S('un'), S('yn')), par=lambda c: c.add_parameters(list(c.subs)[0]),
    obs=lambda c: c.add_observer({S('on'): S('x1')}), setM=lambda c: c.set_Mxx(sp.zeros(3 * (len(c.x) // 3))),
    entry=lambda c: c.M.__setitem__((0, 1), S('hacked')), init=lambda c: c.init_M(),
    lists=lambda c: (c.x.append(S('xq')), c.w.append(S('wq')), c.z.append(S('zq')), c.u.append(S('uq')),
                     c.y.append(S('yq')), c.p.append(S('pq')), c.cu.append(S('cq')), c.cy.append(S('cq')),
                     c.subs.update({S('kq'): 1}), c.observers.update({S('oq'): S('x1')}),
                     c.force_wnl.append(S('wq')), c.connectors.append(dict(u=[], y=[], alpha=1)),
                     c.Q.__setitem__((0, 0), S('qq')) if c.Q.shape[0] else None,
                     c.Zl.__setitem__((0, 0), S('qq')) if c.Zl.shape[0] else None,
                     c.exprs_names.add('w'), c.symbs_names.discard('p')),
)
HEAVY = ('simplify', 'subsinverse')


def mutate(c, m):
    try:
        MUT[m](c)
    except (AssertionError, ValueError, TypeError):
        if m != 'setM':
            raise


def independent(s, build, muts, tier):
    """mutations of one side leave the other as it was"""
    ref = snap(build('A'))
    for m in muts:
        c = build('A')
        d = c.__copy__()
        mutate(d, m)
        same(s, m + '_src_', snap(c), ref)
        c = build('A')
        d = c.__copy__()
        mutate(c, m)
        same(s, m + '_cpy_', snap(d), ref)


def independent_sum(s, muts, tier):
    ra, rb = snap(plain('A')), snap(was_split('B'))
    rs = snap(plain('A') + was_split('B'))
    for m in muts:
        a, b = plain('A'), was_split('B')
        c = a + b
        mutate(c, m)
        same(s, m + '_a_', snap(a), ra)
        same(s, m + '_b_', snap(b), rb)
        a, b = plain('A'), was_split('B')
        c = a + b
        mutate(a, m)
        mutate(b, m)
        same(s, m + '_sum_', snap(c), rs)


def chain(s, tier):
    """a + b + c, and sums of copies"""
    a, b, c = only_ports('A'), no_ports('B'), no_storage('C')
    l, r = snap((a + b) + c), snap(a + (b + c))
    same(s, 'assoc_', l, r)
    same(s, 'copies_', snap(a.__copy__() + b.__copy__()), snap(a + b))


def scenarios(tier):
    out = []
    for b in BUILD:
        out.append(('copy_' + b.__name__, copies, dict(build=b, tier=tier)))
        out.append(('save_' + b.__name__, saved, dict(build=b, tier=tier)))
    pairs = [(plain, was_split), (was_split, plain), (plain, empty), (empty, plain), (no_ports, no_storage),
             (no_storage, no_ports), (only_ports, plain), (no_matrix, no_storage), (plain, no_matrix),
             (only_ports, only_ports), (no_ports, only_ports), (empty, no_ports)]
    if tier == 'thorough':
        ok = [b for b in BUILD if b not in (extra, own_grad)]
        pairs = [(a, b) for a in ok for b in ok]
    for a, b in pairs:
        out.append(('sum_%s_%s' % (a.__name__, b.__name__), sums, dict(a=a, b=b, tier=tier)))
    out.append(('sum_chain', chain, dict(tier=tier)))
    names = sorted(MUT)
    for i in range(0, len(names), 4):
        part = names[i:i + 4]
        for b in (plain, was_split):
            out.append(('indep_%s_%d' % (b.__name__, i // 4), independent, dict(build=b, muts=part, tier=tier)))
        out.append(('indepsum_%d' % (i // 4), independent_sum, dict(muts=part, tier=tier)))
    return out
