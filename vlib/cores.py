"""Families of systems used as symbolic operands. Every function returns a new real Core whose
numbers are symbols; `poly=True` replaces undefined functions by polynomials (for numerics)."""
import sympy as sp
from .env import import_pyphs
pyphs = import_pyphs()
from pyphs import Core  # noqa

S = Core.symbols


def F(name, poly=False):
    if not poly:
        return sp.Function(name)
    k = sum(map(ord, name)) % 3 + 1
    return lambda *a: sum(x**2 / 2 + k * x**4 / 4 for x in a) + (
        sp.Rational(k, 2) * sp.Mul(*a)**2 if len(a) > 1 else 0)


def fullM(core, skew=False, zero=(), tag='m'):
    core.init_M()
    n = core.dims.tot()
    core.M = sp.SparseMatrix(n, n, lambda i, j: 0 if (i, j) in zero else
                             (S('%s%d%d' % (tag, i, j)) if not skew else
                              (0 if i == j else
                               (S('%s%d%d' % (tag, i, j)) if i < j else
                                -S('%s%d%d' % (tag, j, i))))))
    return core


def ports(core, n):
    if n:
        core.add_ports([S('u%d' % i) for i in range(1, n + 1)], [S('y%d' % i) for i in range(1, n + 1)])


def lin_coupled(poly=False):
    c = Core('lin')
    x = [S('x1'), S('x2')]
    c.add_storages(x, S('q1') * x[0]**2 / 2 + S('q2') * x[1]**2 / 2 + S('q12') * x[0] * x[1] +
                   S('b1') * x[0])
    c.add_dissipations(S('w1'), S('r1') * S('w1'))
    ports(c, 1)
    return fullM(c)


def lin_skew(poly=False):
    c = Core('linskew')
    x = [S('x1'), S('x2')]
    c.add_storages(x, x[0]**2 / (2 * S('C1')) + x[1]**2 / (2 * S('L1')))
    c.add_dissipations([S('w1'), S('w2')], [S('r1') * S('w1'), S('w2') / S('r2')])
    ports(c, 2)
    return fullM(c, skew=True)


def mono(poly=False):
    c = Core('mono')
    x = [S('x1'), S('x2')]
    c.add_storages(x[0], F('h1', poly)(x[0]))
    c.add_storages(x[1], S('q2') * x[1]**2 / 2)
    c.add_dissipations(S('w1'), F('z1', poly)(S('w1')))
    ports(c, 1)
    return fullM(c, skew=True)


def mono_last(poly=False):
    """nonlinear element first, linear ones after: forces reordering"""
    c = Core('monolast')
    x = [S('x1'), S('x2'), S('x3')]
    c.add_storages(x[0], F('h1', poly)(x[0]))
    c.add_storages(x[1], S('q2') * x[1]**2 / 2)
    c.add_storages(x[2], S('q3') * x[2]**2 / 2)
    c.add_dissipations([S('w1'), S('w2')], [F('z1', poly)(S('w1')), S('r2') * S('w2')])
    ports(c, 1)
    return fullM(c, skew=True)


def multi(poly=False):
    c = Core('multi')
    x = [S('x1'), S('x2'), S('x3')]
    c.add_storages(x, F('h', poly)(x[0], x[2]) + S('q2') * x[1]**2 / 2)
    c.add_dissipations(S('w1'), S('r1') * S('w1'))
    ports(c, 1)
    return fullM(c, skew=True)


def multi_mono(poly=False):
    c = Core('multimono')
    x = [S('x1'), S('x2'), S('x3')]
    c.add_storages(x, F('h', poly)(x[0], x[1]) + F('h3', poly)(x[2]))
    ports(c, 1)
    return fullM(c, skew=True)


def mixed_coupling(poly=False):
    """a quadratic storage coupled, through the energy, with a nonlinear one"""
    c = Core('mixed')
    x = [S('x1'), S('x2')]
    c.add_storages(x, (x[0] + x[1])**2 / 2 + x[1]**4 / 4)
    c.add_dissipations(S('w1'), S('r1') * S('w1'))
    ports(c, 1)
    return fullM(c, skew=True)


def mixed_chain(poly=False):
    """chain of quadratic couplings ending on a nonlinear storage, plus an isolated linear one"""
    c = Core('mixedchain')
    x = [S('x1'), S('x2'), S('x3'), S('x4')]
    c.add_storages(x, (x[0] + x[1])**2 / 2 + S('k') * x[1] * x[2] + x[2]**2 + x[2]**4 / 4 + x[3]**2)
    ports(c, 1)
    c.init_M()
    c.set_Jxy([[1], [0], [0], [S('j')]])
    c.set_Jxx([[0, S('a'), 0, 0], [-S('a'), 0, S('b'), 0], [0, -S('b'), 0, 1], [0, 0, -1, 0]])
    return c


def port_only(poly=False):
    """nonlinear storage seen by the port only"""
    c = Core('portonly')
    c.add_storages(S('x1'), F('h1', poly)(S('x1')))
    c.add_storages(S('x2'), S('q2') * S('x2')**2 / 2)
    c.add_dissipations(S('w1'), S('r1') * S('w1'))
    ports(c, 2)
    c.init_M()
    c.set_Jxy([[S('j1'), 0], [0, S('j2')]])
    c.set_Jxw([[0], [1]])
    return c


def state_dep(poly=False):
    """structure and dissipation depending on the state, on inputs and on parameters"""
    c = Core('statedep')
    x = [S('x1'), S('x2')]
    c.add_storages(x, S('q1') * x[0]**2 / 2 + F('h2', poly)(x[1]))
    c.add_dissipations([S('w1'), S('w2')], [S('r1') * S('w1') * (1 + x[0]**2),
                                            S('w2') * S('p1') + S('w1')**3 * x[1]])
    ports(c, 1)
    c.add_parameters(S('p1'))
    fullM(c, skew=True)
    n = c.dims.tot()
    M = sp.Matrix(c.M)
    M[0, 1] += x[0] * S('k')
    M[1, 0] -= x[0] * S('k')
    M[1, n - 1] += x[1] * S('p1')
    M[n - 1, 1] -= x[1] * S('p1')
    M[0, 0] -= x[1]**2
    c.M = sp.SparseMatrix(M)
    return c


def grad_dep(poly=False):
    """structure and dissipation depending on the gradient symbols"""
    c = Core('graddep')
    x = [S('x1'), S('x2')]
    c.add_storages(x, S('q1') * x[0]**2 / 2 + F('h2', poly)(x[1]))
    g = c.g()
    c.add_dissipations(S('w1'), S('r1') * S('w1') * (1 + g[0]**2))
    ports(c, 1)
    fullM(c, skew=True)
    M = sp.Matrix(c.M)
    M[0, 1] += g[1] * x[0]
    M[1, 0] -= g[1] * x[0]
    M[1, 1] -= g[0]**2
    c.M = sp.SparseMatrix(M)
    return c


def observers(poly=False):
    c = Core('obs')
    x = [S('x1'), S('x2')]
    c.add_storages(x, S('q1') * x[0]**2 / 2 + F('h2', poly)(x[1]))
    c.add_dissipations(S('w1'), S('w1') * S('o1'))
    ports(c, 1)
    c.add_parameters(S('p1'))
    fullM(c, skew=True)
    c.add_observer({S('o1'): 1 + x[0]**2 * S('p1')})
    c.add_observer({S('o2'): S('u1') * x[1]})
    M = sp.Matrix(c.M)
    M[0, 1] += S('o2')
    M[1, 0] -= S('o2')
    c.M = sp.SparseMatrix(M)
    return c


def diss_only(poly=False):
    c = Core('dissonly')
    c.add_dissipations([S('w1'), S('w2')], [F('z1', poly)(S('w1')), S('r2') * S('w2')])
    ports(c, 2)
    return fullM(c, skew=True)


def diss_coupled(poly=False):
    """two nonlinear laws depending on both dissipation variables (transistor like)"""
    c = Core('dissc')
    c.add_storages(S('x1'), S('q1') * S('x1')**2 / 2)
    w = [S('w1'), S('w2'), S('w3')]
    c.add_dissipations(w, [w[0] * w[1]**2, S('r3') * w[1] + w[0]**2 * w[1], S('r') * w[2]])
    ports(c, 1)
    return fullM(c, skew=True)


def store_only(poly=False):
    c = Core('storeonly')
    c.add_storages(S('x1'), F('h1', poly)(S('x1')))
    c.add_storages(S('x2'), S('q2') * S('x2')**2 / 2)
    return fullM(c, skew=True)


def subs_chain(poly=False):
    """parameters given by expressions of other parameters"""
    c = Core('subs')
    x = [S('x1'), S('x2')]
    c.add_storages(x, S('q1') * x[0]**2 / 2 + x[1]**2 / (2 * S('L')))
    c.add_dissipations(S('w1'), S('r1') * S('w1'))
    ports(c, 1)
    fullM(c, skew=True)
    c.subs.update({S('q1'): S('a')**2 + 1, S('r1'): S('a') * S('b')})
    return c


ALL = [lin_coupled, lin_skew, mono, mono_last, multi, multi_mono, mixed_coupling, mixed_chain,
       port_only, state_dep, grad_dep, observers, diss_only, diss_coupled, store_only, subs_chain]
