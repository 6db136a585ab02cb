"""Symbolic execution of the numerical (numpy) layer of pyphs.

numpy arrays are given object dtype and hold `Num` scalars (exact symbolic reals); a comparison
between them asks the path explorer, which consults the solver for feasibility and re-executes the
real code once per feasible path. numpy.linalg.inv / norm / solve and einsum do not support object
arrays: for those only, an exact real-arithmetic equivalent is substituted (the contract of the
numpy function)."""
import sys
import math
import random
import time
import fractions
import numpy
import sympy
from .smt import z3, witness, model_rationals, canonical, polynomial, Budget


F1 = fractions.Fraction(1)
F0 = fractions.Fraction(0)
TOL = fractions.Fraction(1, 10**10)


def isc(v):
    return isinstance(v, fractions.Fraction)


def zt(v):
    """z3 term"""
    return z3.Q(v.numerator, v.denominator) if isc(v) else v


def mul(a, b):
    if isc(a) and isc(b):
        return a * b
    if isc(a):
        a, b = b, a
    if isc(b):
        if b == 0:
            return F0
        if b == 1:
            return a
    return zt(a) * zt(b)


def add(a, b):
    if isc(a) and isc(b):
        return a + b
    if isc(a):
        a, b = b, a
    if isc(b) and b == 0:
        return a
    return zt(a) + zt(b)


def neg(a):
    return -a if isc(a) else -a


def same(a, b):
    if isc(a) or isc(b):
        return isc(a) and isc(b) and a == b
    return a.get_id() == b.get_id()


class Undefined(Exception):
    pass


class Explorer:
    """all feasible paths of a deterministic function by re-execution"""

    current = None

    def __init__(self, ctx, max_paths=200, timeout=1.5):
        self.ctx = ctx
        self.max_paths = max_paths
        self.timeout = timeout
        self.npaths = 0
        self.rng = random.Random(1)

    def run(self, fn):
        """yield (result, path condition: list of z3 formulas) for each feasible path"""
        todo = [[]]
        while todo:
            if self.npaths >= self.max_paths:
                raise RuntimeError('more than %d paths' % self.max_paths)
            self.prefix = todo.pop()
            self.taken = []
            self.pc = []
            self.pending = []
            self.cache = {}
            Explorer.current = self
            try:
                out = fn()
            except Infeasible:
                continue
            finally:
                Explorer.current = None
                todo += self.pending
            self.npaths += 1
            yield out, list(self.pc)

    def assume(self, cond):
        self.pc.append(cond)

    def decide(self, cond):
        k = cond.get_id()
        if k in self.cache:
            return self.cache[k]
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
            if not t and not f:
                raise Infeasible()
            if t and f:
                self.pending.append(list(self.taken) + [False])
                v = True
            else:
                v = t
        self.taken.append(v)
        self.cache[k] = v
        self.keep = getattr(self, 'keep', [])
        self.keep.append(cond)
        self.pc.append(cond if v else z3.Not(cond))
        return v

    linear = False          # path conditions known to be linear: decided in this process

    def feasible(self, cond):
        c = self.ctx
        if self.linear:
            t0 = time.time()
            z = z3.SimpleSolver()
            z.set('timeout', 2000)
            z.add(*(c.axioms + self.pc + [cond]))
            v = str(z.check())
            c.stats.queries += 1
            c.stats.time += time.time() - t0
            if v in ('sat', 'unsat'):
                setattr(c.stats, v, getattr(c.stats, v) + 1)
                if v == 'sat':
                    c.pool.append(model_rationals(z.model()))
                    del c.pool[:-12]
                return v == 'sat'
        if witness(c.axioms + self.pc + [cond], self.rng, 12,
                   self.ctx.pool) is not None:
            return True
        v, m = c.solve_isolated(self.pc + [cond], timeout=self.timeout)
        if m is not None:
            self.ctx.pool.append(m)
        return v != 'unsat'


class Infeasible(BaseException):
    pass


def _coerce(v):
    if isinstance(v, Num):
        return v
    if isinstance(v, numpy.ndarray) and v.shape == ():
        return _coerce(v.item())
    if isinstance(v, fractions.Fraction):
        return Num(v)
    if isinstance(v, (bool, numpy.bool_)):
        return Num(fractions.Fraction(int(v)))
    if isinstance(v, (int, numpy.integer)):
        return Num(fractions.Fraction(int(v)))
    if isinstance(v, (float, numpy.floating)):
        v = float(v)
        if v != v or v in (float('inf'), float('-inf')):
            return Num(None)
        return Num(fractions.Fraction(v))
    if isinstance(v, sympy.Integer):
        return Num(fractions.Fraction(int(v)))
    if isinstance(v, sympy.Rational):
        return Num(fractions.Fraction(int(v.p), int(v.q)))
    if isinstance(v, sympy.Float):
        return Num(fractions.Fraction(float(v)) if v._prec <= 53 else fractions.Fraction(str(v)))
    raise TypeError(type(v))


def _bin(f):
    def g(self, other):
        if isinstance(other, numpy.ndarray) and other.shape != ():
            return NotImplemented
        try:
            o = _coerce(other)
        except TypeError:
            return NotImplemented
        if self.n is None or o.n is None:
            return Num(None)
        return f(self, o)
    return g


def _add(a, b):
    side = _join(a.side, b.side)
    if same(a.d, b.d):
        return Num(add(a.n, b.n), a.d, side)
    return Num(add(mul(a.n, b.d), mul(b.n, a.d)), mul(a.d, b.d), side)


def _mulf(a, b):
    return Num(mul(a.n, b.n), mul(a.d, b.d), _join(a.side, b.side))


def _inv(a):
    if isc(a.n):
        if a.n == 0:
            return Num(None)
        if isc(a.d):
            return Num(a.d / a.n, F1, a.side)
        return Num(mul(a.d, F1 / a.n), F1, a.side)
    c = a.n != 0
    side = dict(a.side)
    side[c.get_id()] = c
    return Num(a.d, a.n, side)


class Num(object):
    """exact symbolic real n/d (z3 terms or Fractions); n is None: undefined (nan, inf)"""
    __slots__ = ('n', 'd', 'side')
    shape = ()
    __hash__ = None

    def __init__(self, n, d=F1, side=None):
        if isinstance(n, (int, float, numpy.floating, numpy.integer)):
            c = _coerce(n)
            n, d = c.n, c.d
        self.n, self.d, self.side = n, d, side or {}
        if isc(n) and n == 0:
            self.d = F1

    def __repr__(self):
        return 'Num(%s/%s)' % (self.n, self.d)

    __add__ = _bin(_add)
    __radd__ = _bin(lambda a, b: _add(b, a))
    __sub__ = _bin(lambda a, b: _add(a, -b))
    __rsub__ = _bin(lambda a, b: _add(b, -a))
    __mul__ = _bin(_mulf)
    __rmul__ = _bin(lambda a, b: _mulf(b, a))

    @_bin
    def __truediv__(a, b):
        i = _inv(b)
        return i if i.n is None else _mulf(a, i)

    @_bin
    def __rtruediv__(a, b):
        i = _inv(a)
        return i if i.n is None else _mulf(b, i)

    def __pow__(self, k):
        k = _coerce(k)
        if self.n is None or k.n is None:
            return Num(None)
        if not (isc(k.n) and isc(k.d)):
            raise NotImplementedError('symbolic exponent')
        k = k.n / k.d
        if k == fractions.Fraction(1, 2):
            return self.sqrt()
        if k.denominator != 1:
            raise NotImplementedError('exponent %s' % k)
        k = int(k)
        out, b = Num(F1), self
        if k < 0:
            b, k = _inv(self), -k
            if b.n is None:
                return b
        for _ in range(k):
            out = _mulf(out, b)
        return out

    def __neg__(self):
        return Num(None) if self.n is None else Num(neg(self.n), self.d, self.side)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def sqrt(self):
        return Sqrt(self)

    def _fun(self, name):
        """transcendental function: uninterpreted (its float value on a constant)"""
        if self.n is None:
            return self
        c = self.const()
        if c is not None:
            if c == 0:
                return Num(F1 if name in ('exp', 'cos', 'cosh') else F0)
            try:
                return Num(getattr(math, name)(float(c)))
            except (OverflowError, ValueError):
                return Num(None)
        f = z3.Function('fun_' + name, z3.RealSort(), z3.RealSort())
        n, fac = self, Num(F1)
        if isc(self.d):
            try:
                p, _ = polynomial(zt(self.n), 600)
            except (Budget, ValueError):
                p = {}
            # parity, and exp(c + t) = exp(c) exp(t): the forms sympy rewrites on its own
            if name == 'exp' and p.get(0):
                return Num(p[0] / self.d)._fun('exp') * (self - Num(p[0] / self.d))._fun('exp')
            if p and name != 'exp' and str(canonical(zt(mul(self.n, F1 / self.d)))) > str(
                    canonical(zt(mul(self.n, -F1 / self.d)))):
                n, fac = -self, Num(F1 if name in ('cos', 'cosh') else -F1)
        a = zt(n.n) if isc(n.d) and n.d == 1 else zt(n.n) / zt(n.d)
        return fac * Num(f(canonical(a, 600)), F1, self.side)

    def exp(self):
        return self._fun('exp')

    def sin(self):
        return self._fun('sin')

    def cos(self):
        return self._fun('cos')

    def tan(self):
        return self._fun('tan')

    def sinh(self):
        return self._fun('sinh')

    def cosh(self):
        return self._fun('cosh')

    def tanh(self):
        return self._fun('tanh')

    def arctan(self):
        return self._fun('atan')

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    def item(self):
        return self

    def const(self):
        """Fraction when the value is a constant, else None"""
        if isc(self.n) and isc(self.d):
            return self.n / self.d
        return None

    def __float__(self):
        if self.const() is not None:
            return float(self.const())
        raise TypeError('symbolic value forced to a float')

    def __bool__(self):
        return bool(self != 0)

    def _rel(self, other, rel):
        if isinstance(other, Sqrt):
            return other._rel(self, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(rel, rel))
        if isinstance(other, numpy.ndarray) and other.shape != ():
            return NotImplemented
        o = _coerce(other)
        if self.n is None or o.n is None:
            return SymBool(rel == '!=')
        d = self - o
        c = d.const()
        if c is not None:
            return SymBool({'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0,
                            '!=': c != 0}[rel])
        t = d.n if rel in ('==', '!=') else mul(d.n, d.d)
        t = canonical(zt(t), 600, monic=True)
        if z3.is_rational_value(t):
            c = t.as_fraction()
            return SymBool({'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0, '==': c == 0,
                            '!=': c != 0}[rel])
        return SymBool({'<': lambda: t < 0, '<=': lambda: t <= 0, '>': lambda: t > 0,
                        '>=': lambda: t >= 0, '==': lambda: t == 0, '!=': lambda: t != 0}[rel]())

    def __lt__(self, o):
        return self._rel(o, '<')

    def __le__(self, o):
        return self._rel(o, '<=')

    def __gt__(self, o):
        return self._rel(o, '>')

    def __ge__(self, o):
        return self._rel(o, '>=')

    def __eq__(self, o):
        return self._rel(o, '==')

    def __ne__(self, o):
        return self._rel(o, '!=')


class Sqrt(Num):
    """square root of a Num; only comparisons with constants >= 0 and squaring are supported"""
    __slots__ = ('sq',)

    def __init__(self, sq):
        self.sq = sq
        Num.__init__(self, None)

    def _rel(self, other, rel):
        o = _coerce(other)
        c = o.const()
        if c is None:
            raise NotImplementedError('comparison of a square root with a symbolic value')
        if self.sq.n is None:
            return SymBool(rel == '!=')
        if c < 0:
            return SymBool(rel in ('>', '>=', '!='))
        return self.sq._rel(Num(c * c), rel)

    def __repr__(self):
        return 'Sqrt(%r)' % self.sq


class SymBool(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        if isinstance(self.c, bool):
            return self.c
        if Explorer.current is None:
            raise RuntimeError('symbolic branch outside an explorer: %s' % (self.c,))
        return Explorer.current.decide(self.c)

    def z3(self):
        return z3.BoolVal(self.c) if isinstance(self.c, bool) else self.c


def sym(name):
    return Num(z3.Real(name))


def evaluate(expr, env):
    """value (Num) of a sympy expression for {symbol name: Num}; Piecewise conditions are branches"""
    expr = sympy.sympify(expr)
    memo = {}

    def ev(e):
        r = memo.get(e)
        if r is None:
            r = memo[e] = ev_(e)
        return r

    def ev_(e):
        if e.is_Number:
            return _coerce(e)
        if e.is_Symbol:
            return env[str(e)]
        if e.is_Add:
            r = ev(e.args[0])
            for x in e.args[1:]:
                r = r + ev(x)
            return r
        if e.is_Mul:
            r = ev(e.args[0])
            for x in e.args[1:]:
                r = r * ev(x)
            return r
        if e.is_Pow:
            return ev(e.args[0]) ** ev(e.args[1])
        if isinstance(e, sympy.Piecewise):
            for v, c in e.args:
                if cond(c):
                    return ev(v)
            raise Undefined(str(e))
        if isinstance(e, sympy.Abs):
            return abs(ev(e.args[0]))
        if isinstance(e, (sympy.exp, sympy.sin, sympy.cos, sympy.tan, sympy.sinh, sympy.cosh,
                          sympy.tanh, sympy.atan)):
            return ev(e.args[0])._fun(type(e).__name__)
        if isinstance(e, sympy.sign):
            a = ev(e.args[0])
            return Num(F1) if a > 0 else Num(F0) if a == 0 else Num(-F1)
        if isinstance(e, (sympy.Max, sympy.Min)):
            r = ev(e.args[0])
            for x in e.args[1:]:
                y = ev(x)
                if (y > r) if isinstance(e, sympy.Max) else (y < r):
                    r = y
            return r
        raise NotImplementedError(str(e))

    def cond(c):
        if c == sympy.true:
            return True
        if c == sympy.false:
            return False
        if isinstance(c, sympy.And):
            return all(cond(x) for x in c.args)
        if isinstance(c, sympy.Or):
            return any(cond(x) for x in c.args)
        if isinstance(c, sympy.Not):
            return not cond(c.args[0])
        l, r = map(ev, c.args)
        if isinstance(c, sympy.Eq):
            return bool(l == r)
        if isinstance(c, sympy.Ne):
            return bool(l != r)
        return bool(l._rel(r, c.rel_op))
    return ev(expr)


class Checker:
    """handed to a body executed once per path: `inp` makes inputs, `eq`/`rel` state obligations"""

    def __init__(self, values=None):
        self.values = values          # concrete replay when given
        self.obl = []

    def inp(self, name):
        if self.values is None:
            return sym(name)
        v = self.values.get(name, fractions.Fraction(1, 2))
        return Num(fractions.Fraction(v))

    def vec(self, names):
        out = numpy.empty(len(names), dtype=object)
        for i, n in enumerate(names):
            out[i] = self.inp(n) if isinstance(n, str) else _coerce(n)
        return out

    def assume(self, c):
        if self.values is None:
            if isinstance(c.c, bool):
                if not c.c:
                    raise Infeasible()
            else:
                Explorer.current.assume(c.c)
        elif not bool(c):
            raise Infeasible()

    def eq(self, key, l, r, what=''):
        self.obl.append((key, 'eq', _coerce(l), _coerce(r), what))

    def rel(self, key, c, side=None, what=''):
        self.obl.append((key, 'rel', c, side, what))

    def expect(self, key, ok, what=''):
        self.obl.append((key, 'fact', bool(ok), None, what))


def prove_paths(s, body, tag='', max_paths=200, timeout=1.5):
    """explore the real code through `body(chk)` and discharge its obligations on every path"""
    if s.replay is not None:
        for key, values in s.replay.items():
            print('REPLAY %s/%s: %s' % (s.name, key, _concrete(body, values, None)))
        return

    def fn():
        chk = Checker()
        body(chk)
        return chk
    ex = Explorer(s.ctx, max_paths=max_paths, timeout=timeout)
    for k, (chk, pc) in enumerate(ex.run(fn)):
        eqs = [o for o in chk.obl if o[1] == 'eq']
        pre = '%spath%d_' % (tag, k)
        for o in chk.obl:
            if o[1] == 'fact':
                s.expect(pre + o[0], o[2], o[4])
        undef = [o for o in eqs if o[2].n is None or o[3].n is None]
        for o in undef:
            if o[2].n is None and o[3].n is None:
                continue
            v, m = s.ctx.solve_isolated(pc)
            if v == 'unsat':
                continue
            _report(s, pre, o, body, m, 'undefined value')
        eqs = [o for o in eqs if not (o[2].n is None or o[3].n is None)]
        eqs = [o for o in eqs if not (same(o[2].n, o[3].n) and same(o[2].d, o[3].d))] or eqs[:1]
        _batch(s, pre, eqs, pc, body)
        for o in chk.obl:
            if o[1] != 'rel':
                continue
            side = list((o[3] or {}).values())
            # subsets of the path condition first (the deciding branch is often one of them)
            for sub in [[c] for c in pc]:
                v, m = s.ctx.solve_isolated(side + sub + [z3.Not(o[2].z3())], timeout=.5, quick=True)
                if v == 'unsat':
                    break
            else:
                v, m = s.ctx.solve_isolated(pc + side + [z3.Not(o[2].z3())])
            if v == 'unsat':
                _vac(s, pc + side)
                s._ok(pre + o[0], o[4])
            else:
                _report(s, pre, o, body, m if v == 'sat' else None, o[4], pc)
    if ex.npaths == 0:
        raise RuntimeError('no feasible path')
    return ex.npaths


def _vac(s, pre):
    """non vacuity: a concrete assignment satisfies the hypotheses (paths are explored when their
    feasibility is not refuted, so an unsatisfiable path is possible and harmless)"""
    k = tuple(sorted(p.get_id() for p in pre))
    if k in s._vac:
        return
    s._vac[k] = True
    if witness(pre, s.rng, 25, s.ctx.pool) is not None:
        s.ctx.stats.vacuity += 1
    else:
        s.ctx.stats.vacuity_unknown += 1


def identical(a, b):
    """are two values identical rational functions (z3's rewriter)"""
    if a.n is None or b.n is None:
        return False
    t = add(mul(a.n, b.d), neg(mul(b.n, a.d)))
    if isc(t):
        return t == 0
    t = canonical(t)
    return z3.is_rational_value(t) and t.as_fraction() == 0


def _goal(o):
    l, r = o[2], o[3]
    side = list(_join(l.side, r.side).values())
    diff = add(mul(l.n, r.d), neg(mul(r.n, l.d)))
    if isc(diff):
        return side, z3.BoolVal(abs(diff) > TOL * max(1, abs(mul(l.n, r.d))))
    # coefficients at the level of the rounding of the constants of the generated code are zero
    return side, canonical(zt(diff), ref=zt(mul(l.n, r.d)), tol=TOL) != 0


def _batch(s, pre, eqs, pc, body):
    if not eqs:
        return
    s.entries += len(eqs)
    gs = [_goal(o) for o in eqs]
    # identities hold without the path condition: cheap queries first
    left = []
    for o, (sd, g) in zip(eqs, gs):
        v, _ = s.ctx.solve_isolated([g], timeout=4., quick=True)
        if v == 'unsat':
            _vac(s, pc + sd)
            s._ok(pre + o[0], o[4])
        else:
            left.append((o, (sd, g)))
    if not left:
        return
    eqs, gs = [o for o, _ in left], [g for _, g in left]
    if len(eqs) > 1:
        v, _ = s.ctx.solve_isolated(pc + [z3.Or([z3.And(sd + [g]) for sd, g in gs])], timeout=10.)
        if v == 'unsat':
            allside = {}
            for sd, _g in gs:
                for c in sd:
                    allside[c.get_id()] = c
            _vac(s, pc + list(allside.values()))
            s._ok(pre + 'batch', '%d equalities, e.g. %s' % (len(eqs), eqs[0][0]))
            return
    for o, (sd, g) in zip(eqs, gs):
        v, m = s.ctx.solve_isolated(pc + sd + [g])
        if v == 'unsat':
            _vac(s, pc + sd)
            s._ok(pre + o[0], o[4])
        else:
            _report(s, pre, o, body, m if v == 'sat' else None, o[4], pc)


def _concrete(body, values, key):
    """run the real code on concrete numbers; description of the failure of obligation `key`"""
    chk = Checker(values)
    try:
        body(chk)
    except Infeasible:
        return None
    out = []
    for k, kind, l, r, what in chk.obl:
        bad = None
        if kind == 'eq':
            a, b = (x.const() if x.n is not None else None for x in (l, r))
            if (a is None) != (b is None) or a != b and \
                    abs(a - b) > TOL * max(1, abs(a), abs(b)):
                bad = '%s: got %s, required %s' % (what or k, a if a is None else float(a),
                                                  b if b is None else float(b))
        elif kind == 'rel' and not bool(l):
            bad = '%s fails' % (what or k)
        elif kind == 'fact' and not l:
            bad = what or k
        if bad and (key is None or k == key):
            return bad
        if bad:
            out.append(bad)
    return out[0] if out else None


def _report(s, pre, o, body, model, what, pc=()):
    tries = []
    if model is not None:
        tries.append(model)
    names = set()

    class Rec(Checker):
        def inp(self, name):
            names.add(name)
            return Num(fractions.Fraction(1, 2))
    try:
        body(Rec({}))
    except BaseException:
        pass
    for i in range(60):
        tries.append({n: fractions.Fraction(s.rng.randint(-40, 40) or 1, s.rng.choice([1, 2, 4, 8]))
                      for n in sorted(names)})
    for vals in tries:
        try:
            msg = _concrete(body, vals, o[0])
        except Exception as exc:
            msg = None
        if msg:
            s.violate(pre + o[0], msg, vals)
            return
    s.undecided.append((pre + o[0], 'sat' if model is not None else 'unknown'))


def _join(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    r.update(b)
    return r


def symbolic(a):
    """does the array hold symbolic entries?"""
    return isinstance(a, numpy.ndarray) and a.dtype == object and any(
        isinstance(v, Num) for v in a.flat)


def _minor(rows, i, j):
    return [[v for c, v in enumerate(r) if c != j] for k, r in enumerate(rows) if k != i]


def det(rows):
    n = len(rows)
    if n == 0:
        return Num(F1)
    if n == 1:
        return rows[0][0]
    out = Num(F0)
    for j in range(n):
        if rows[0][j].const() != 0:
            out = out + rows[0][j] * det(_minor(rows, 0, j)) * (-1)**j
    return out


def clear_rows(rows):
    """rows scaled to be division free: (rows, scales) with rows[i] = scales[i]*original"""
    out, scales = [], []
    for r in rows:
        dens = []
        for v in r:
            if not (isc(v.d) and v.d == 1) and not any(same(v.d, x) for x in dens):
                dens.append(v.d)
        sc = F1
        for x in dens:
            sc = mul(sc, x)
        row = []
        for v in r:
            t = v.n
            for x in dens:
                if not same(x, v.d):
                    t = mul(t, x)
            row.append(Num(t, F1, v.side))
        out.append(row)
        scales.append(Num(sc))
    return out, scales


def exact_inverse(rows):
    n = len(rows)
    rows, scales = clear_rows([[_coerce(v) for v in r] for r in rows])
    d = det(rows)
    if d.const() == 0:
        raise numpy.linalg.LinAlgError('Singular matrix')
    di = Num(F1) / d
    # (S A)^-1 S
    return [[det(_minor(rows, j, i)) * (-1)**(i + j) * di * scales[j] for j in range(n)]
            for i in range(n)]


def install():
    """to be called before pyphs is imported"""
    if getattr(numpy.linalg, '_verif_installed', False):
        return
    numpy.linalg._verif_installed = True
    inv0, einsum0, norm0, solve0 = (numpy.linalg.inv, numpy.einsum, numpy.linalg.norm,
                                    numpy.linalg.solve)

    def inv(a, *k, **kw):
        if isinstance(a, numpy.ndarray) and a.dtype == object:
            out = numpy.empty(a.shape, dtype=object)
            for i, r in enumerate(exact_inverse([list(r) for r in a])):
                for j, v in enumerate(r):
                    out[i, j] = v
            return out
        return inv0(a, *k, **kw)

    def solve(a, b, *k, **kw):
        a, b = numpy.asarray(a), numpy.asarray(b)
        if a.dtype == object or b.dtype == object:
            return numpy.dot(inv(a.astype(object)), b)
        return solve0(a, b, *k, **kw)

    def einsum(spec, *ops, **kw):
        if any(isinstance(o, numpy.ndarray) and o.dtype == object for o in ops):
            if spec in ('i,i', 'i,i->'):
                out = 0
                for p, q in zip(*ops):
                    out = out + p * q
                return out
            raise NotImplementedError('einsum %s on symbolic arrays' % spec)
        return einsum0(spec, *ops, **kw)

    def norm(x, ord=None, axis=None, **kw):
        x_ = numpy.asarray(x)
        if x_.dtype == object and ord in (None, 2) and axis is None:
            out = 0
            for v in x_.flat:
                out = out + v * v
            return numpy.sqrt(out)
        return norm0(x, ord, axis, **kw)
    numpy.linalg.inv, numpy.einsum, numpy.linalg.norm, numpy.linalg.solve = inv, einsum, norm, solve


class NumpyProxy(object):
    """numpy as seen by the numerical modules of pyphs: float arrays are created as object arrays"""

    def __init__(self, mod):
        self._m = mod

    def __getattr__(self, name):
        return getattr(self._m, name)

    def _obj(self, a):
        # floats become exact numbers, so that 1/0 is an undefined value and not an exception
        # (numpy's float64 scalars give nan/inf there)
        if isinstance(a, numpy.ndarray) and a.dtype.kind == 'f':
            out = numpy.empty(a.shape, dtype=object)
            for i, v in numpy.ndenumerate(a):
                out[i] = Num(v)
            return out
        return a

    def array(self, *a, **k):
        return self._obj(self._m.array(*a, **k))

    def asarray(self, *a, **k):
        return self._obj(self._m.asarray(*a, **k))

    def zeros(self, *a, **k):
        return self._obj(self._m.zeros(*a, **k))

    def ones(self, *a, **k):
        return self._obj(self._m.ones(*a, **k))

    def empty(self, *a, **k):
        return self._obj(self._m.empty(*a, **k))

    def zeros_like(self, *a, **k):
        return self._obj(self._m.zeros_like(*a, **k))


def proxy_modules(prefixes=('pyphs.numerics',)):
    p = NumpyProxy(numpy)
    for name, mod in list(sys.modules.items()):
        if mod is not None and name.startswith(prefixes):
            for attr in ('numpy', 'np'):
                if getattr(mod, attr, None) is numpy:
                    setattr(mod, attr, p)
