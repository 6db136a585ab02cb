"""Scenario runner: obligations, counterexample replay, evidence, verdict."""
import json
import os
import pickle
import random
import signal
import sys
import time
import traceback
import fractions
import sympy
from sympy.core.function import AppliedUndef
from sympy.core.relational import Relational
from sympy.logic.boolalg import Boolean
from . import smt
from .env import VERIF, SEED, REPO

z3 = smt.z3


class Scenario:
    """Handed to a scenario function: collects proof obligations about what the real code returned."""

    def __init__(self, name, timeout=20., replay=None):
        self.name = name
        self.ctx = smt.Ctx(timeout=timeout)
        self.obligations = []      # (key, verdict)
        self.violations = []
        self.undecided = []
        self.samples = []
        self.replay = replay       # {key: values} in replay mode
        self.rng = random.Random(SEED)
        self._vac = {}
        self.bounds = []
        self.entries = 0
        self.funcs = []

    # ---------------------------------------------------------------- eval
    def _default_inst(self, expr):
        rep = {}
        for f in expr.atoms(AppliedUndef):
            rep[f.func] = None
        return rep

    def evaluate(self, expr, values, inst=None, prec=30):
        """value of an expression at a concrete point, computed outside the solver"""
        expr = sympy.sympify(expr)
        inst = dict(inst or {})
        for func in {f.func for f in expr.atoms(AppliedUndef)}:
            if func not in inst:
                k = 1 + sum(map(ord, func.__name__)) % 5
                inst[func] = (lambda k: lambda *a: sum((i + k) * x**2 + x**4 / sympy.Integer(4) +
                                                       x * k for i, x in enumerate(a)) +
                              (sympy.Mul(*a) if len(a) > 1 else 0))(k)
        for func, fn in inst.items():
            expr = expr.replace(func, fn)
        if expr.atoms(sympy.Subs, sympy.Derivative):
            expr = expr.doit()
        sub = {}
        for s in expr.free_symbols:
            v = values.get(str(s), fractions.Fraction(1, 3))
            v = fractions.Fraction(v)
            sub[s] = sympy.Rational(v.numerator, v.denominator)
        r = expr.xreplace(sub)
        if isinstance(r, Boolean):
            return r
        return r.evalf(prec)

    def _holds(self, conds, values, inst):
        for c in conds:
            try:
                r = self.evaluate(c, values, inst)
                if r != sympy.true:
                    return False
            except Exception:
                return False
        return True

    def _differs(self, lhs, rhs, values, inst, tol):
        try:
            a, b = (self.evaluate(e, values, inst) for e in (lhs, rhs))
            if not (a.is_number and b.is_number) or a.has(sympy.nan, sympy.zoo, sympy.oo) or \
                    b.has(sympy.nan, sympy.zoo, sympy.oo):
                return None
            if abs(a - b) > tol * (1 + abs(a) + abs(b)):
                return str(a), str(b)
        except Exception:
            return None
        return None

    def _points(self, symbols, first=None, n=300):
        if first is not None:
            yield first
        names = sorted({str(s) for s in symbols})
        for i in range(n):
            sc = [1, 3, fractions.Fraction(1, 3), 10][i % 4]
            yield {s: fractions.Fraction(self.rng.randint(-99, 99) or 1, 37) * sc if i % 3 else
                   fractions.Fraction(self.rng.randint(1, 99), 37) * sc for s in names}

    # ---------------------------------------------------------- obligations
    def prove_eq(self, key, lhs, rhs, assume=(), inst=None, tol=1e-12, facts=(), what=''):
        """for all values of the free symbols (where defined, under `assume`): lhs == rhs"""
        lhs, rhs = sympy.sympify(lhs), sympy.sympify(rhs)
        if self.replay is not None:
            if key in self.replay:
                v = self.replay[key]
                print('REPLAY %s/%s: lhs=%s rhs=%s' % (
                    self.name, key, self.evaluate(lhs, v, inst), self.evaluate(rhs, v, inst)))
            return True
        for e in (lhs, rhs):
            if e.has(sympy.nan, sympy.zoo, sympy.oo) and not e.has(sympy.Piecewise):
                self.violate(key, 'undefined value in the result: %s' % str(e)[:200], {})
                return False
        c = self.ctx
        a, b = c.t(lhs), c.t(rhs)
        sd = {}
        pre = [c.cond(x, sd) for x in assume] + list(facts)
        sd.update(a[2])
        sd.update(b[2])
        side = list(sd.values())
        goal = smt.canonical(c._m(a[0], b[1]) - c._m(b[0], a[1]), 1500) != 0
        verdict, model = c.check(pre + side + [goal])
        if verdict == 'unsat':
            self._vacuity(pre + side)
            self._ok(key, 'forall: %s == %s' % (str(lhs)[:120], str(rhs)[:120]))
            return True
        syms = lhs.free_symbols | rhs.free_symbols
        for x in assume:
            syms = syms | x.free_symbols
        first = c.model_values(model, syms) if verdict == 'sat' else None
        for values in self._points(syms, first):
            if not self._holds(assume, values, inst):
                continue
            d = self._differs(lhs, rhs, values, inst, tol)
            if d:
                self.violate(key, '%s: got %s, required %s' % (what or 'values differ', d[0], d[1]),
                             values, str(lhs)[:2000], str(rhs)[:2000])
                return False
        self.undecided.append((key, verdict))
        return False

    def prove_all(self, key, pairs, assume=(), inst=None, what='', facts=()):
        """entrywise equality of [(key, lhs, rhs)]: one query for the whole batch, entry by entry
        only when that query is not unsat"""
        pairs = [(k, sympy.sympify(l), sympy.sympify(r)) for k, l, r in pairs]
        self.entries += len(pairs)
        if self.replay is None and pairs:
            c = self.ctx
            bad = any(e.has(sympy.nan, sympy.zoo, sympy.oo) for _, l, r in pairs for e in (l, r))
            if not bad:
                todo = [(l, r) for _, l, r in pairs if l != r]
                ts = [(c.t(l), c.t(r)) for l, r in todo]
                goals = [z3.And(z3.And(list(smt._join(a[2], b[2]).values()) or [z3.BoolVal(True)]),
                                smt.canonical(c._m(a[0], b[1]) - c._m(b[0], a[1]), 1500) != 0)
                         for a, b in ts]
                sides = {}
                pre = [c.cond(x, sides) for x in assume] + list(facts)
                pre += list(sides.values())
                v, _ = c._check(pre + [z3.Or(goals) if goals else z3.BoolVal(False)], timeout=6.)
                if v == 'unsat':
                    for a, b in ts:
                        sides.update(smt._join(a[2], b[2]))
                    self._vacuity(pre + list(sides.values()))
                    k, l, r = next(((k, l, r) for k, l, r in pairs if l != r), pairs[0])
                    self._ok(key, '%d entries, e.g. %s: %s == %s' % (
                        len(pairs), k, str(l)[:100], str(r)[:100]))
                    return True
        ok = True
        for k, l, r in pairs:
            ok = self.prove_eq(k, l, r, assume=assume, inst=inst, what=what, facts=facts) and ok
        return ok

    def prove_rel(self, key, rel, assume=(), inst=None, what='', facts=()):
        """for all values of the free symbols (where defined, under `assume`): the relation holds"""
        if rel == sympy.true:
            self._ok(key, 'true')
            return True
        if self.replay is not None:
            if key in self.replay:
                print('REPLAY %s/%s: %s' % (self.name, key,
                                            self.evaluate(rel, self.replay[key], inst)))
            return True
        if rel == sympy.false:
            self.violate(key, what or 'relation is false', {})
            return False
        c = self.ctx
        side = {}
        g = c.cond(rel, side)
        pre = [c.cond(x, side) for x in assume] + list(facts)
        verdict, model = c.check(pre + list(side.values()) + [z3.Not(g)])
        if verdict == 'unsat':
            self._vacuity(pre + list(side.values()))
            self._ok(key, 'forall: %s' % str(rel)[:200])
            return True
        syms = rel.free_symbols
        for x in assume:
            syms = syms | x.free_symbols
        first = c.model_values(model, syms) if verdict == 'sat' else None
        for values in self._points(syms, first):
            if not self._holds(assume, values, inst):
                continue
            try:
                if self.evaluate(rel, values, inst) == sympy.false:
                    self.violate(key, what or 'relation fails: %s' % str(rel)[:300], values)
                    return False
            except Exception:
                pass
        self.undecided.append((key, verdict))
        return False

    def prove_defined(self, key, expr, assume=(), inst=None, what=''):
        """for all values of the free symbols under `assume`: the expression is defined"""
        expr = sympy.sympify(expr)
        if self.replay is not None:
            if key in self.replay:
                print('REPLAY %s/%s: %s' % (self.name, key,
                                            self.evaluate(expr, self.replay[key], inst)))
            return True
        c = self.ctx
        side = list(c.t(expr)[2].values())
        if not side:
            self._ok(key, 'defined everywhere')
            return True
        verdict, model = c.check([c.cond(x) for x in assume] + [z3.Not(z3.And(side))])
        if verdict == 'unsat':
            self._vacuity([c.cond(x) for x in assume])
            self._ok(key, 'forall: defined(%s)' % str(expr)[:150])
            return True
        if verdict == 'sat':
            syms = expr.free_symbols
            for x in assume:
                syms = syms | x.free_symbols
            values = c.model_values(model, syms)
            if self._holds(assume, values, inst):
                try:
                    v = self.evaluate(expr, values, inst)
                    bad = v.has(sympy.nan, sympy.zoo, sympy.oo) or not v.is_real
                except Exception:
                    bad = False
                if bad:
                    self.violate(key, 'undefined value %s' % what, values, str(expr)[:2000])
                    return False
        self.undecided.append((key, verdict))
        return False

    def prove_z3(self, key, goal, pre=(), confirm=None, what='', names=()):
        """validity of a z3 formula; `confirm(values)` replays a model on the real code"""
        c = self.ctx
        if self.replay is not None:
            if key in self.replay and confirm:
                print('REPLAY %s/%s: %s' % (self.name, key, confirm(self.replay[key])))
            return True
        verdict, model = c.check(list(pre) + [z3.Not(goal)])
        if verdict == 'unsat':
            self._vacuity(list(pre))
            self._ok(key, what or key)
            return True
        if verdict == 'sat':
            values = {}
            for d in model.decls():
                if d.arity() == 0:
                    v = model[d]
                    try:
                        if z3.is_algebraic_value(v):
                            v = v.approx(20)
                        values[d.name()] = fractions.Fraction(v.as_fraction())
                    except Exception:
                        try:
                            values[d.name()] = v.as_long()
                        except Exception:
                            values[d.name()] = str(v)
            msg = confirm(values) if confirm else what
            if msg:
                self.violate(key, '%s %s' % (what, msg if confirm else ''), values)
                return False
        self.undecided.append((key, verdict))
        return False

    def expect(self, key, ok, what):
        """a concrete fact about the objects returned (names, shapes) that the encoding relies on
        and that is itself part of the property"""
        if self.replay is not None:
            if key in self.replay:
                print('REPLAY %s/%s: %s' % (self.name, key, 'ok' if ok else 'fails: ' + what))
            return ok
        if ok:
            self.obligations.append((key, 'concrete'))
        else:
            self.violate(key, what, {})
        return ok

    def _ok(self, key, text):
        self.obligations.append((key, 'unsat'))
        if len(self.samples) < 2:
            self.samples.append('%s/%s: %s' % (self.name, key, text))

    def _vacuity(self, pre):
        pre = [p for p in pre if not z3.is_true(z3.simplify(p))]
        k = tuple(sorted(p.get_id() for p in pre))
        if k in self._vac:
            return
        self._vac[k] = True
        c = self.ctx
        if not pre and not c.axioms:
            c.stats.vacuity += 1
            return
        if smt.witness(pre + c.axioms, self.rng, 25, c.pool) is not None:
            c.stats.vacuity += 1
            return
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(pre)
        s.add(c.axioms)
        r = s.check()
        if r == z3.unknown:
            s = z3.Then('simplify', 'purify-arith', 'elim-term-ite', 'tseitin-cnf',
                        'qfnra-nlsat').solver()
            s.set('timeout', 1500)
            s.add(pre)
            s.add(c.axioms)
            try:
                r = s.check()
            except z3.Z3Exception:
                pass
        if r == z3.sat:
            c.stats.vacuity += 1
        elif r == z3.unknown:
            c.stats.vacuity_unknown += 1
        else:
            raise RuntimeError('vacuous obligation in %s' % self.name)

    def violate(self, key, detail, values, lhs='', rhs=''):
        self.violations.append(dict(scenario=self.name, key=key, detail=detail,
                                    values={k: str(v) for k, v in values.items()},
                                    lhs=lhs, rhs=rhs))


def _frames(tb):
    return [(f.filename, f.lineno, f.name) for f in traceback.extract_tb(tb)]


def _blame(tb):
    """'repo' when the innermost frame of ours-or-theirs is code of /repo"""
    for fn, _, _ in reversed(_frames(tb)):
        p = os.path.realpath(fn)
        if p.startswith(os.path.realpath(REPO) + '/'):
            return 'repo'
        if p.startswith(os.path.realpath(VERIF) + '/'):
            return 'verif'
    # code compiled at run time by the library (lambdify) has no file: blame the caller found above
    return 'verif'


def run_scenario(name, fn, kw, replay=None, trace=False):
    s = Scenario(name, timeout=kw.pop('timeout', 20.), replay=replay)
    t0 = time.time()
    out = dict(name=name, error=None)
    seen = set()
    if trace:
        root = os.path.realpath(REPO) + '/pyphs/'

        def prof(frame, event, arg):
            if event == 'call':
                co = frame.f_code
                if co not in seen and co.co_filename.startswith(root):
                    seen.add(co)
        sys.setprofile(prof)
    try:
        fn(s, **kw)
    except Exception as exc:
        tb = sys.exc_info()[2]
        text = ''.join(traceback.format_exception(type(exc), exc, tb))[-3000:]
        if _blame(tb) == 'repo':
            s.violate('exception', 'the real code raised %s: %s' % (type(exc).__name__, exc), {},
                      text)
            out['raised'] = True
        else:
            out['error'] = text
    finally:
        if trace:
            sys.setprofile(None)
    out['functions'] = sorted({'%s:%s' % (c.co_filename[len(REPO) + 1:], c.co_name)
                               for c in seen if not c.co_name.startswith('<')})
    out.update(obligations=s.obligations, violations=s.violations, undecided=s.undecided,
               samples=s.samples, stats=s.ctx.stats.as_dict(), wall=time.time() - t0,
               bounds=s.bounds, entries=s.entries)
    return out


def _child(wfd, name, fn, kw, trace):
    try:
        os.setsid()
    except OSError:
        pass
    try:
        r = run_scenario(name, fn, kw, trace=trace)
    except BaseException as e:   # noqa
        r = dict(name=name, error='%s: %s' % (type(e).__name__, e), obligations=[], violations=[],
                 undecided=[], samples=[], stats={}, wall=0, bounds=[], functions=[])
    data = pickle.dumps(r)
    with os.fdopen(wfd, 'wb') as f:
        f.write(data)
    sys.stdout.flush()
    os._exit(0)


def run_all(scenarios, jobs=8, limit=600., trace=False):
    """each scenario in a forked process of its own; returns the list of results"""
    import select
    results, running, todo = [], {}, list(scenarios)
    while todo or running:
        while todo and len(running) < jobs:
            name, fn, kw = todo.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                for fd in running:
                    os.close(fd)
                try:        # do not outlive the check
                    import ctypes
                    ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                except Exception:
                    pass
                _child(w, name, fn, dict(kw), trace)
            os.close(w)
            running[r] = [pid, name, time.time(), b'']
        ready, _, _ = select.select(list(running), [], [], 1.)
        for fd in ready:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                running[fd][3] += chunk
                continue
            pid, name, t0, data = running.pop(fd)
            os.close(fd)
            os.waitpid(pid, 0)
            if os.environ.get('VERIF_TIMES'):
                print('%7.1f s %s' % (time.time() - t0, name), flush=True)
            if data:
                results.append(pickle.loads(data))
            else:
                results.append(dict(name=name, error='scenario process died', obligations=[],
                                    violations=[], undecided=[], samples=[], stats={}, wall=0,
                                    bounds=[], functions=[]))
        now = time.time()
        for fd in list(running):
            pid, name, t0, data = running[fd]
            if now - t0 > limit:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(fd)
                running.pop(fd)
                results.append(dict(name=name, error='scenario exceeded %d s' % limit,
                                    obligations=[], violations=[], undecided=[], samples=[],
                                    stats={}, wall=limit, bounds=[], functions=[]))
    return results


def load_known(pid):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get('findings', []) if e['property'] == pid]


def finish(pid, tier, results, t0, meta):
    """evidence + verdict"""
    known = load_known(pid)
    violations, errors, undecided, hit = [], [], [], []
    for r in results:
        if r['error']:
            errors.append((r['name'], r['error']))
        for v in r['violations']:
            k = next((e for e in known if e['scenario'] in ('*', v['scenario']) and e['key'] == v['key']),
                     None)
            if k:
                hit.append(k)
            else:
                violations.append(v)
        undecided += [(r['name'],) + tuple(u) for u in r['undecided']]
    rdir = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for old in os.listdir(rdir):
        if old.startswith(pid + '_'):
            os.remove(os.path.join(rdir, old))
    nobl = sum(len(r['obligations']) for r in results)
    nsolver = sum(1 for r in results for o in r['obligations'] if o[1] == 'unsat')
    stats = {}
    for r in results:
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
    stats = {k: (round(v, 2) if isinstance(v, float) else v) for k, v in stats.items()}
    functions = sorted({f for r in results for f in r.get('functions', [])})
    ev = dict(
        property=pid, tier=tier, seed=SEED, level='other',
        coverage=dict(
            explanation=meta['explanation'],
            scenarios=len(results), obligations=nobl + len(violations) + len(undecided),
            discharged_by_solver=nsolver, concrete_side_facts=nobl - nsolver,
            undecided=len(undecided), solver=stats,
            matrix_entries_compared=sum(r.get('entries', 0) for r in results), bounds=meta.get('bounds', []),
            outside=meta.get('outside', []),
            functions_encoded=functions or meta.get('functions', []),
            samples=[s for r in results for s in r['samples']][:12],
            scenario_names=[r['name'] for r in results],
            slowest=sorted(((round(r['wall'], 1), r['name']) for r in results), reverse=True)[:5]),
        assumptions=meta.get('assumptions', []),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for e in {(k['scenario'], k['key']): k for k in hit}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, e['what']))
    print('%s %s: %d scenarios, %d obligations discharged by the solver, %d concrete, '
          '%d undecided, %d violations, %d queries, %.1f s solver, %.1f s wall' % (
              pid, tier, len(results), nsolver, nobl - nsolver, len(undecided), len(violations),
              stats.get('queries', 0), stats.get('time', 0), time.time() - t0))
    for i, v in enumerate(violations[:20]):
        path = os.path.join(rdir, '%s_%02d.json' % (pid, i))
        v['replay_cmd'] = '%s/check %s replay %s' % (VERIF, pid, path)
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print('  %s/%s: %s' % (v['scenario'], v['key'], v['detail'][:400]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    if violations:
        return 1
    for n, e in errors:
        print('ERROR in %s: %s' % (n, e))
    for u in undecided[:20]:
        print('UNDECIDED %s' % (u,))
    if errors or undecided:
        return 2
    if nsolver == 0:
        print('ERROR: nothing was discharged')
        return 2
    return 0
