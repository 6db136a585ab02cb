"""Translation of the expressions produced by pyphs (sympy objects) to z3 terms over the reals.

* every value is a fraction (num, den) of division-free terms; the conditions under which it is
  defined (denominators non zero, arguments in the domain) are collected separately and guarded by
  the Piecewise branch they occur in;
* floating point literals are read as the exact rational they denote;
* elementary and undefined functions are uninterpreted; two applications are identified when the
  solver proves their arguments equal (so functional congruence is decided by the solver too).
"""
import fractions
import os
import pickle
import select
import signal
import time
import sympy
from .env import import_z3

z3 = import_z3()


class Untranslatable(Exception):
    pass


def frac(v):
    """exact z3 rational from a number"""
    if isinstance(v, (int, fractions.Fraction)):
        f = fractions.Fraction(v)
    elif isinstance(v, float):
        f = fractions.Fraction(v)
    elif isinstance(v, sympy.Integer):
        f = fractions.Fraction(int(v))
    elif isinstance(v, sympy.Rational):
        f = fractions.Fraction(int(v.p), int(v.q))
    elif isinstance(v, sympy.Float):
        sign, man, exp, _ = v._mpf_
        f = fractions.Fraction(int(man))
        f = f * (fractions.Fraction(2) ** int(exp))
        if sign:
            f = -f
    else:
        f = fractions.Fraction(v)
    return z3.Q(f.numerator, f.denominator)


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.
        self.vacuity = 0
        self.vacuity_unknown = 0

    def as_dict(self):
        return dict(self.__dict__)


class Ctx:
    """One translation context: a solver namespace shared by the obligations of a scenario."""

    def __init__(self, timeout=20., lemmas=True):
        self.memo = {}
        self.vars = {}
        self.apps = {}
        self.stats = Stats()
        self.pool = []
        self.timeout = timeout
        self.axioms = []
        self.lemmas = lemmas
        self.nfresh = 0
        self.one = z3.Q(1, 1)

    # -- terms ------------------------------------------------------------
    def var(self, name):
        name = str(name)
        if name not in self.vars:
            self.vars[name] = z3.Real(name)
        return self.vars[name]

    def fresh(self, stem):
        self.nfresh += 1
        return z3.Real('%s!%d' % (stem, self.nfresh))

    def isone(self, d):
        return d is self.one or (z3.is_rational_value(d) and d.as_fraction() == 1)

    def t(self, e):
        """translate: returns (num, den, {id: sidecondition})"""
        if isinstance(e, (int, float, fractions.Fraction)) and not isinstance(e, bool):
            return frac(e), self.one, {}
        e = sympy.sympify(e)
        r = self.memo.get(e)
        if r is None:
            r = self._t(e)
            self.memo[e] = r
        return r

    def mul(self, a, b):
        return (self._m(a[0], b[0]), self._m(a[1], b[1]), _join(a[2], b[2]))

    def _m(self, a, b):
        if self.isone(a):
            return b
        if self.isone(b):
            return a
        return a * b

    def add(self, a, b):
        sc = _join(a[2], b[2])
        if a[1] is b[1] or a[1].get_id() == b[1].get_id():
            return a[0] + b[0], a[1], sc
        return (self._m(a[0], b[1]) + self._m(b[0], a[1]), self._m(a[1], b[1]), sc)

    def inv(self, a):
        sc = dict(a[2])
        c = a[0] != 0
        sc[c.get_id()] = c
        return a[1], a[0], sc

    def real(self, f):
        """single term for a fraction (a z3 division when needed)"""
        return f[0] if self.isone(f[1]) else f[0] / f[1]

    def ite(self, c, a, b):
        sc = {}
        for g, x in ((c, a), (z3.Not(c), b)):
            for k in x[2].values():
                imp = z3.Implies(g, k)
                sc[imp.get_id()] = imp
        if a[1] is b[1] or a[1].get_id() == b[1].get_id():
            return z3.If(c, a[0], b[0]), a[1], sc
        return z3.If(c, a[0], b[0]), z3.If(c, a[1], b[1]), sc

    def _t(self, e):
        if e.is_Number or e in (sympy.zoo, sympy.nan):
            if e in (sympy.oo, -sympy.oo, sympy.zoo, sympy.nan):
                f = z3.BoolVal(False)
                return self.fresh('undef'), self.one, {f.get_id(): f}
            return frac(e), self.one, {}
        if e.is_Symbol:
            return self.var(e.name), self.one, {}
        if e.is_Add:
            r = self.t(e.args[0])
            for a in e.args[1:]:
                r = self.add(r, self.t(a))
            return r
        if e.is_Mul:
            r = self.t(e.args[0])
            for a in e.args[1:]:
                r = self.mul(r, self.t(a))
            return r
        if e.is_Pow:
            base, ex = e.args
            if ex.is_Float and ex == int(ex):
                ex = sympy.Integer(int(ex))
            if ex.is_Integer:
                n = int(ex)
                if abs(n) > 64:
                    raise Untranslatable('power %d' % n)
                b = self.t(base)
                if n < 0:
                    b = self.inv(b)
                    n = -n
                r = (self.one, self.one, b[2])
                for _ in range(n):
                    r = self.mul(r, b)
                return r
            if ex == sympy.Rational(1, 2) or ex == -sympy.Rational(1, 2):
                r = self.sqrt(base)
                return r if ex > 0 else self.inv(r)
            if ex.is_number:
                exr = sympy.nsimplify(ex) if ex.is_Rational else ex
                return self.app('pow[%s]' % exr, (base,), dom='pos')
            return self.app('pow', (base, ex))
        if isinstance(e, sympy.Piecewise):
            args = list(e.args)
            if args[-1][1] != sympy.true:
                raise Untranslatable('piecewise without default')
            r = self.t(args[-1][0])
            for val, cond in reversed(args[:-1]):
                r = self.ite(self.cond(cond), self.t(val), r)
            return r
        if isinstance(e, sympy.Abs):
            a = self.t(e.args[0])
            v = self.real(a)
            return self._with(z3.If(v >= 0, v, -v), a[2])
        if isinstance(e, sympy.sign):
            a = self.t(e.args[0])
            v = self.real(a)
            return self._with(z3.If(v > 0, z3.Q(1, 1), z3.If(v < 0, z3.Q(-1, 1), z3.Q(0, 1))), a[2])
        if isinstance(e, (sympy.Max, sympy.Min)):
            r = self.t(e.args[0])
            for a in e.args[1:]:
                a = self.t(a)
                c = self.real(r) >= self.real(a)
                if isinstance(e, sympy.Min):
                    c = z3.Not(c)
                sc = _join(r[2], a[2])
                r = self.ite(c, r, a)
                r = (r[0], r[1], sc)
            return r
        if isinstance(e, sympy.Heaviside):
            a = self.t(e.args[0])
            v = self.real(a)
            return self._with(z3.If(v > 0, z3.Q(1, 1), z3.If(v < 0, z3.Q(0, 1), z3.Q(1, 2))), a[2])
        if isinstance(e, sympy.Subs):
            expr, old, new = e.args
            if isinstance(expr, sympy.Derivative) and expr.expr.is_Function:
                f = expr.expr
                orders = tuple(sorted((list(f.args).index(v), int(n))
                                      for v, n in expr.variable_count))
                m = dict(zip(old, new))
                return self.app('D%s[%s]' % (orders, f.func.__name__),
                                tuple(a.xreplace(m) for a in f.args))
            raise Untranslatable(str(e))
        if isinstance(e, sympy.Derivative):
            f = e.expr
            if f.is_Function and all(v in f.args for v, _ in e.variable_count):
                orders = tuple(sorted((list(f.args).index(v), int(n))
                                      for v, n in e.variable_count))
                return self.app('D%s[%s]' % (orders, f.func.__name__), f.args)
            raise Untranslatable(str(e))
        if e.is_Function:
            return self.app(e.func.__name__, e.args)
        if e.is_NumberSymbol:          # pi, E ...
            v = self.var('const:%s' % e)
            lo, hi = sympy.Rational(str(sympy.N(e, 20))) - sympy.Rational(1, 10**15), \
                sympy.Rational(str(sympy.N(e, 20))) + sympy.Rational(1, 10**15)
            self.axioms += [v > frac(lo), v < frac(hi)]
            return v, self.one, {}
        raise Untranslatable('%s: %s' % (type(e), e))

    def _with(self, term, sc):
        return term, self.one, sc

    def sqrt(self, base):
        key = 'sqrt'
        b = self.t(base)
        v, new = self._unify(key, (base,), (b,))
        sc = dict(b[2])
        c = self.real(b) >= 0
        sc[c.get_id()] = c
        if new:
            # v>=0, v*v*den == num (when defined)
            self.axioms.append(z3.Implies(z3.And(b[1] != 0, c),
                                          z3.And(v >= 0, v * v * b[1] == b[0])))
        return v, self.one, sc

    def app(self, name, args, dom=None):
        if name == 'exp' and args[0].could_extract_minus_sign():
            v, one, sc = self.app('exp', (-args[0],))      # exp(-a) = 1/exp(a), never zero
            return one, v, sc
        ts = tuple(self.t(a) for a in args)
        sc = {}
        for x in ts:
            sc.update(x[2])
        v, new = self._unify(name, args, ts)
        if name == 'log' or dom == 'pos':
            c = self.real(ts[0]) > 0
            sc[c.get_id()] = c
        if new and self.lemmas:
            self._lemmas(name, v, ts)
        return v, self.one, sc

    def _lemmas(self, name, v, ts):
        """true facts about elementary functions, instantiated at the occurring argument"""
        if len(ts) != 1:
            return
        a = self.real(ts[0])
        ax = self.axioms
        if name == 'exp':
            ax += [v > 0, z3.Implies(a >= 0, v >= 1 + a), z3.Implies(a <= 0, v <= 1),
                   v >= 1 + a]
        elif name == 'log':
            ax += [z3.Implies(a > 0, v <= a - 1), z3.Implies(a > 1, v > 0), z3.Implies(a == 1, v == 0),
                   z3.Implies(z3.And(a > 0, a < 1), v < 0)]
        elif name in ('sinh', 'asinh', 'atan', 'tanh'):
            ax += [z3.Implies(a > 0, v > 0), z3.Implies(a < 0, v < 0), z3.Implies(a == 0, v == 0)]
        elif name == 'cosh':
            ax += [v >= 1]
        elif name in ('sin', 'cos'):
            ax += [v <= 1, v >= -1]
            if name == 'sin':
                ax += [z3.Implies(a == 0, v == 0)]
            else:
                ax += [z3.Implies(a == 0, v == 1)]

    def _unify(self, name, args, ts):
        lst = self.apps.setdefault((name, len(args)), [])
        for oargs, ots, v in lst:
            if oargs == tuple(args):
                return v, False
        for oargs, ots, v in lst:
            if all(self._same(a, b, x, y) for a, b, x, y in zip(oargs, args, ots, ts)):
                lst.append((tuple(args), ts, v))
                return v, False
        v = self.fresh(name)
        lst.append((tuple(args), ts, v))
        return v, True

    def _same(self, a, b, ta, tb):
        # numeric screening first (only ever skips a proof attempt)
        try:
            d = sympy.sympify(a) - sympy.sympify(b)
            if d == 0:
                return True
            fs = sorted(d.free_symbols, key=str)
            pt = {s: sympy.Rational(3 + 7 * i, 11 + 2 * i) for i, s in enumerate(fs)}
            val = d.subs(pt).evalf(15)
            if val.is_number and abs(val) > 1e-9:
                return False
        except Exception:
            pass
        n = self._m(ta[0], tb[1]) - self._m(tb[0], ta[1])
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(self.axioms)
        s.add(list(ta[2].values()) + list(tb[2].values()))
        s.add(n != 0)
        t0 = time.time()
        r = s.check()
        self.stats.queries += 1
        self.stats.time += time.time() - t0
        if r == z3.unsat:
            self.stats.unsat += 1
        return r == z3.unsat

    def congruence(self):
        """functional congruence for all pairs of applications (Ackermann's expansion)"""
        out = []
        for (name, n), lst in self.apps.items():
            for i, (_, ta, va) in enumerate(lst):
                for _, tb, vb in lst[:i]:
                    if va.get_id() == vb.get_id():
                        continue
                    eqs = [self._m(a[0], b[1]) == self._m(b[0], a[1]) for a, b in zip(ta, tb)]
                    out.append(z3.Implies(z3.And(eqs), va == vb))
        return out

    def cond(self, c, side=None):
        """z3 formula of a condition; the definedness conditions of its terms are added to `side`"""
        if c == sympy.true:
            return z3.BoolVal(True)
        if c == sympy.false:
            return z3.BoolVal(False)
        if isinstance(c, sympy.And):
            return z3.And([self.cond(a, side) for a in c.args])
        if isinstance(c, sympy.Or):
            return z3.Or([self.cond(a, side) for a in c.args])
        if isinstance(c, sympy.Not):
            return z3.Not(self.cond(c.args[0], side))
        if c.is_Relational:
            l, r = (self.t(a) for a in c.args)
            if side is not None:
                side.update(l[2])
                side.update(r[2])
            # l - r = n/d with d != 0: the sign of n*d
            n = self._m(l[0], r[1]) - self._m(r[0], l[1])
            d = self._m(l[1], r[1])
            if isinstance(c, sympy.Eq):
                return n == 0
            if isinstance(c, sympy.Ne):
                return n != 0
            if not self.isone(d):
                n = n * d
            elif self.isone(l[1]) and self.isone(r[1]):
                return {'<': lambda: l[0] < r[0], '<=': lambda: l[0] <= r[0],
                        '>': lambda: l[0] > r[0], '>=': lambda: l[0] >= r[0]}[c.rel_op]()
            return {'<': lambda: n < 0, '<=': lambda: n <= 0,
                    '>': lambda: n > 0, '>=': lambda: n >= 0}[c.rel_op]()
        raise Untranslatable('condition %s' % (c,))

    def expr(self, e):
        return self.real(self.t(e))

    # -- queries ----------------------------------------------------------
    def check(self, constraints, timeout=None):
        """sat / unsat / unknown of the conjunction; returns (verdict, model or None)"""
        verdict, model = self._check(constraints, timeout)
        if verdict != 'unsat':
            cong = self.congruence()
            if cong:
                verdict, model = self._check(list(constraints) + cong, timeout)
        return verdict, model

    def _check(self, constraints, timeout=None):
        cons = list(self.axioms) + list(constraints)
        conds = ite_conditions(cons)
        if not 1 <= len(conds) <= 6:
            return self._solve(cons, timeout)
        # case split on the branch conditions; every case is a query of its own
        verdict, model = 'unsat', None
        stack = [(cons, conds)]
        while stack:
            cur, cs = stack.pop()
            cs = [c for c in cs if not (z3.is_true(c) or z3.is_false(c))]
            if not cs:
                v, m = self._solve(cur, timeout)
                if v == 'sat':
                    return v, m
                if v == 'unknown':
                    verdict = 'unknown'
                continue
            c = cs[0]
            for val in (True, False):
                b = z3.BoolVal(val)
                new = [z3.simplify(z3.substitute(x, (c, b))) for x in cur]
                if any(z3.is_false(x) for x in new):
                    continue
                lit = c if val else z3.Not(c)
                s = z3.Solver()
                s.set('timeout', 200)
                s.add(lit, *[x for x in cur if z3.is_bool(x) and _small(x)])
                if s.check() == z3.unsat:
                    continue
                stack.append((new + [lit], ite_conditions(new)))
        return verdict, model

    def _solve(self, cons, timeout=None, quick=False):
        timeout = timeout or self.timeout
        t0 = time.time()
        self.stats.queries += 1
        verdict, model = 'unknown', None
        if quick:
            s = z3.Solver()
            s.set('timeout', int(1000 * timeout))
            s.add(cons)
            r = s.check()
            if r != z3.unknown:
                verdict = str(r)
            self.stats.time += time.time() - t0
            setattr(self.stats, verdict, getattr(self.stats, verdict) + 1)
            return verdict, None
        for mk, share in ((z3.Solver, .4),
                          (lambda: z3.Then('simplify', 'purify-arith', 'propagate-values',
                                           'elim-term-ite', 'solve-eqs', 'smt').solver(), .2),
                          (lambda: z3.Then('simplify', 'purify-arith', 'propagate-values',
                                           'elim-term-ite', 'solve-eqs', 'tseitin-cnf',
                                           'qfnra-nlsat').solver(), .4)):
            s = mk()
            s.set('timeout', int(1000 * timeout * share))
            s.add(cons)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            if r == z3.unsat:
                verdict = 'unsat'
                break
            if r == z3.sat:
                verdict, model = 'sat', s.model()
                break
        self.stats.time += time.time() - t0
        setattr(self.stats, verdict, getattr(self.stats, verdict) + 1)
        return verdict, model

    def solve_isolated(self, cons, timeout=None, quick=False):
        """like _solve in a forked process that is ended when the solver overruns its time; returns
        (verdict, {name: Fraction} or None)"""
        cons = list(self.axioms) + list(cons)
        timeout = timeout or self.timeout
        if all(z3.is_true(c) or z3.is_false(c) for c in map(z3.simplify, cons[-3:])) and len(cons) <= 3:
            v, m = self._solve(cons, timeout, quick=True)
            return v, None
        r, w = os.pipe()
        t0 = time.time()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                v, m = self._solve(cons, timeout, quick=quick)
                data = pickle.dumps((v, model_rationals(m) if m is not None else None))
                os.write(w, data[:60000])
            finally:
                os._exit(0)
        os.close(w)
        end, data = t0 + timeout + 1., b''
        while time.time() < end:
            ready, _, _ = select.select([r], [], [], max(.01, end - time.time()))
            if not ready:
                break
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
        os.waitpid(pid, 0)
        try:
            v, m = pickle.loads(data)
        except Exception:
            v, m = 'unknown', None
        self.stats.queries += 1
        self.stats.time += time.time() - t0
        setattr(self.stats, v, getattr(self.stats, v) + 1)
        return v, m

    def model_values(self, model, symbols):
        out = {}
        for s in symbols:
            v = self.vars.get(str(s))
            if v is None:
                out[str(s)] = fractions.Fraction(0)
                continue
            val = model.eval(v, model_completion=True)
            try:
                if z3.is_algebraic_value(val):
                    val = val.approx(20)
                out[str(s)] = val.as_fraction()
            except Exception:
                out[str(s)] = fractions.Fraction(0)
        return out


def _join(a, b):
    if not a:
        return b
    if not b:
        return a
    r = dict(a)
    r.update(b)
    return r


def _small(e, limit=60):
    n, todo = 0, [e]
    while todo:
        x = todo.pop()
        n += 1
        if n > limit:
            return False
        todo += x.children()
    return True


class Budget(Exception):
    pass


def polynomial(term, limit=4000):
    """canonical form of a polynomial z3 term, as ({packed monomial: Fraction}, variables); raises
    Budget when it is too large and ValueError when the term is not a polynomial"""
    memo, names, atoms = {}, {}, []

    def mulp(a, b):
        if len(a) * len(b) > 40 * limit:
            raise Budget
        out = {}
        for m, c in a.items():
            for n, d in b.items():
                k = m + n
                out[k] = out.get(k, 0) + c * d
        out = {k: v for k, v in out.items() if v}
        if len(out) > limit:
            raise Budget
        return out

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k]
        if z3.is_rational_value(e):
            v = e.as_fraction()
            v = fractions.Fraction(v.numerator, v.denominator)
            r = {0: v} if v else {}
        elif z3.is_add(e):
            r = {}
            for x in e.children():
                for m, c in go(x).items():
                    r[m] = r.get(m, 0) + c
            r = {m: c for m, c in r.items() if c}
        elif z3.is_sub(e):
            ch = e.children()
            r = dict(go(ch[0]))
            for x in ch[1:]:
                for m, c in go(x).items():
                    r[m] = r.get(m, 0) - c
            r = {m: c for m, c in r.items() if c}
        elif z3.is_app_of(e, z3.Z3_OP_UMINUS):
            r = {m: -c for m, c in go(e.arg(0)).items()}
        elif z3.is_mul(e):
            ch = sorted((go(x) for x in e.children()), key=len)
            r = ch[0]
            for x in ch[1:]:
                r = mulp(r, x)
        elif z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1)):
            n = e.arg(1).as_fraction()
            if n.denominator != 1 or n < 0 or n > 12:
                raise ValueError
            r = {0: fractions.Fraction(1)}
            for _ in range(int(n)):
                r = mulp(r, go(e.arg(0)))
        elif z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ITE):
            if k not in names:
                names[k] = len(atoms)
                atoms.append(e)
            r = {1 << (8 * names[k]): fractions.Fraction(1)}
        else:
            raise ValueError(e.decl().name())
        memo[k] = r
        return r
    return go(term), atoms


def canonical(term, limit=4000, monic=False, ref=None, tol=0):
    """the canonical sum of monomials of a polynomial term (the term itself when too large),
    up to a positive factor when `monic`"""
    try:
        p, atoms = polynomial(term, limit)
    except (Budget, ValueError):
        return term
    if p and tol and ref is not None:
        try:
            scale = max([abs(c) for c in polynomial(ref, limit)[0].values()] or [0])
            if all(abs(c) <= tol * scale for c in p.values()):
                p = {}
        except (Budget, ValueError):
            pass
    # the order of the variables must not depend on the order of the traversal
    order = sorted(range(len(atoms)), key=lambda i: str(atoms[i]) if not atoms[i].children()
                   else '~%d' % atoms[i].get_id())
    if order != list(range(len(atoms))):
        pos = {o: k for k, o in enumerate(order)}
        q = {}
        for m, c in p.items():
            k, i, n = 0, 0, m
            while n:
                k |= (n & 255) << (8 * pos[i])
                n >>= 8
                i += 1
            q[k] = c
        p, atoms = q, [atoms[o] for o in order]
    if monic and p:
        lead = abs(p[max(p)])
        p = {m: c / lead for m, c in p.items()}
    out = []
    for m in sorted(p):
        t = [z3.Q(p[m].numerator, p[m].denominator)]
        i = 0
        while m:
            t += [atoms[i]] * (m & 255)
            m >>= 8
            i += 1
        out.append(z3.Product(t) if len(t) > 1 else t[0])
    return z3.Sum(out) if len(out) > 1 else out[0] if out else z3.Q(0, 1)


def constants(formulas):
    """uninterpreted real constants of the formulas; None when other symbols occur"""
    seen, out, todo = set(), {}, list(formulas)
    while todo:
        e = todo.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_app(e):
            d = e.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                if d.arity() or not z3.is_real(e):
                    return None
                out[d.name()] = e
            todo += e.children()
        else:
            return None
    return out


def witness(formulas, rng, tries=25, pool=None):
    """a rational assignment satisfying the formulas, found by evaluation (None: not found)"""
    formulas = [f for f in formulas if not z3.is_true(f)]
    cs = constants(formulas)
    if cs is None:
        return None
    npool = len(pool) if pool else 0
    for i in range(-npool, tries):
        val = dict(pool[i]) if i < 0 else {}
        for n in cs:
            if n in val:
                continue
            k = rng.choice([1, 1, 2, 4, 3, 1024, 2**21] if i % 2 else [1, 2, 3, 4])
            val[n] = fractions.Fraction(rng.randint(-9, 9), k)
        sub = [(cs[n], z3.Q(v.numerator, v.denominator)) for n, v in val.items() if n in cs]
        ok = True
        for f in formulas:
            if not z3.is_true(z3.simplify(z3.substitute(f, *sub) if sub else f)):
                ok = False
                break
        if ok:
            if pool is not None and i >= 0:
                pool.append(val)
                del pool[:-12]
            return val
    return None


def model_rationals(model):
    out = {}
    for d in model.decls():
        if d.arity() == 0:
            v = model[d]
            try:
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                out[d.name()] = fractions.Fraction(v.as_fraction())
            except Exception:
                pass
    return out


def ite_conditions(terms):
    """distinct conditions of the real-sorted if-then-else terms"""
    seen, out, todo = set(), {}, list(terms)
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c = x.arg(0)
            while z3.is_not(c):
                c = c.arg(0)
            out[c.get_id()] = c
        todo += x.children()
    return list(out.values())
