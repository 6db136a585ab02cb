"""Symbolic strings for the code that prints and parses text.

A string is a sequence of literal characters and of placeholders, each placeholder standing for every
string of a regular language (no bound on the length). The real code runs on such strings; every operation
that looks for characters asks z3 whether some string of the language holds them. When it may, the run is
abandoned and the language is split in two: without the character, and around its first occurrence."""
import ast
import builtins
import keyword
import string
import time
from .smt import z3

WS = ' \t\n\r\x0b\x0c'
PRINT = ''.join(sorted(c for c in string.printable if c not in WS)) + ' '
LETTERS = string.ascii_letters + '_'
WORD = LETTERS + string.digits
NUMBER = string.digits + '.e+-'
_first = 0x4e00
_keep = {}


class Split(Exception):
    def __init__(self, atom, c, how='in'):
        Exception.__init__(self, atom.name, c, how)
        self.atom, self.c, self.how = atom, c, how


class GiveUp(Exception):
    pass


def _union(chars):
    """regular expression of one character of a set"""
    codes = sorted(set(map(ord, chars)))
    parts, i = [], 0
    while i < len(codes):
        j = i
        while j + 1 < len(codes) and codes[j + 1] == codes[j] + 1:
            j += 1
        parts.append(z3.Range(chr(codes[i]), chr(codes[j])) if j > i else z3.Re(chr(codes[i])))
        i = j + 1
    return parts[0] if len(parts) == 1 else z3.Union(*parts)


class Atom:
    """placeholder of the strings first.cls* (kind 'str'), or of the decimal numbers (kind 'num')"""

    def __init__(self, name, cls=PRINT, first=None, kind='str', excl=(), empty=False):
        self.name, self.kind, self.empty = name, kind, empty
        self.cls = frozenset(cls)
        self.first = frozenset(cls if first is None else first)
        self.excl = frozenset(excl)
        self.ch = None

    def but(self, **kw):
        d = dict(cls=self.cls, first=self.first, kind=self.kind, excl=self.excl, empty=self.empty)
        d.update(kw)
        return Atom(kw.pop('name', None) or self.name, **{k: v for k, v in d.items() if k != 'name'})

    def conds(self, s):
        if self.kind == 'num':
            d = _union(string.digits)
            r = z3.Concat(z3.Option(z3.Re('-')), z3.Plus(d), z3.Option(z3.Concat(z3.Re('.'), z3.Plus(d))),
                          z3.Option(z3.Concat(z3.Re('e'), z3.Option(_union('+-')), z3.Plus(d))))
            c = [z3.InRe(s, r)] + [z3.Not(z3.Contains(s, z3.StringVal(q)))
                                   for q in NUMBER if q not in self.cls]
        else:
            if not self.first:
                return [s == z3.StringVal('')] if self.empty else [z3.BoolVal(False)]
            r = z3.Concat(_union(self.first), z3.Star(_union(self.cls))) if self.cls else _union(self.first)
            c = [z3.InRe(s, z3.Option(r) if self.empty else r)]
        return c + [s != z3.StringVal(e) for e in self.excl]

    def key(self):
        return (self.kind, self.cls, self.first, self.excl, self.empty)


class World:
    """solver queries and placeholders of one exploration"""
    now = None

    def __init__(self, scenario):
        self.s = scenario
        self.cache = {}
        self.atoms = {}

    def ask(self, atom, tag, extra):
        k = (atom.key(), tag)
        if k not in self.cache:
            s = z3.String('s')
            sol = z3.Solver()
            sol.set('timeout', 20000)
            sol.add(*atom.conds(s), *extra(s))
            t0 = time.time()
            r = sol.check()
            st = self.s.ctx.stats
            st.queries += 1
            st.time += time.time() - t0
            setattr(st, str(r), getattr(st, str(r), 0) + 1)
            if r == z3.unknown:
                raise GiveUp('%s %s' % (atom.name, tag))
            self.cache[k] = plain(sol.model()[s].as_string()) if r == z3.sat and sol.model()[s] is not None else (
                '' if r == z3.sat else None)
            if r == z3.unsat:
                self.s._ok('%s_text_%d' % (atom.name, len(self.cache)), 'no string of %s %s' % (atom.name, tag))
        return self.cache[k]

    def member(self, atom):
        """a string of the language, not too short when possible"""
        r = self.ask(atom, 'member', lambda s: [z3.Length(s) >= (2 if atom.kind == 'str' else 1)])
        return r if r is not None else self.ask(atom, 'member1', lambda s: [])

    def may_hold(self, atom, c):
        if atom.kind == 'str' and c not in atom.cls and c not in atom.first:
            pass
        return self.ask(atom, 'may hold %r' % c, lambda s: [z3.Contains(s, z3.StringVal(c))]) is not None

    def may_start(self, atom, c):
        return self.ask(atom, 'may start with %r' % c, lambda s: [z3.PrefixOf(z3.StringVal(c), s)]) is not None

    def may_end(self, atom, c):
        return self.ask(atom, 'may end with %r' % c, lambda s: [z3.SuffixOf(z3.StringVal(c), s)]) is not None

    def may_be(self, atom, v):
        return self.ask(atom, 'may be %r' % v, lambda s: [s == z3.StringVal(v)]) is not None

    def not_word(self, atom):
        return self.ask(atom, 'not an identifier', lambda s: [z3.Not(z3.InRe(s, z3.Concat(
            _union(LETTERS), z3.Star(_union(WORD)))))]) is not None


class Blank:
    """no placeholder: the operations are those of the strings"""
    atoms = {}


World.now = Blank


def plain(t):
    """string of a z3 literal"""
    import re
    return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), t)


def marks(t):
    w = World.now
    return [w.atoms[c] for c in str.__str__(t) if c in w.atoms] if w else []


def opaque(t, chars):
    for a in marks(t):
        for c in chars:
            if World.now.may_hold(a, c):
                raise Split(a, c)


def T(v):
    return TStr(v) if type(v) is str else v


def _ends(t, left, chars):
    for side in left:
        q = str(t)
        q = q.lstrip(chars) if side == 'l' else q.rstrip(chars)
        if q and q[0 if side == 'l' else -1] in World.now.atoms:
            a = World.now.atoms[q[0 if side == 'l' else -1]]
            for c in chars:
                if World.now.may_start(a, c) if side == 'l' else World.now.may_end(a, c):
                    raise Split(a, c)


class TStr(str):
    def partition(self, sep):
        opaque(str.partition(self, sep)[0], sep)
        return tuple(map(T, str.partition(self, sep)))

    def rpartition(self, sep):
        opaque(self, sep)
        return tuple(map(T, str.rpartition(self, sep)))

    def split(self, sep=None, maxsplit=-1):
        if maxsplit >= 0 and sep is None:
            rest = str.split(self, None, maxsplit)[maxsplit:]
            opaque(str(self)[:len(self) - len(rest[0])] if rest else self, WS)
            if rest:
                _ends(rest[0], 'l', WS)
        else:
            opaque(self, WS if sep is None else sep)
        return list(map(T, str.split(self, sep, maxsplit)))

    def rsplit(self, sep=None, maxsplit=-1):
        opaque(self, WS if sep is None else sep)
        return list(map(T, str.rsplit(self, sep, maxsplit)))

    def splitlines(self, keepends=False):
        opaque(self, '\n\r')
        return list(map(T, str.splitlines(self, keepends)))

    def replace(self, old, new, count=-1):
        opaque(self, old)
        return T(str.replace(self, old, new, count))

    def count(self, sub, *a):
        opaque(self, sub)
        return str.count(self, sub, *a)

    def find(self, sub, *a):
        opaque(str.partition(self, sub)[0], sub)
        return str.find(self, sub, *a)

    def index(self, sub, *a):
        opaque(str.partition(self, sub)[0], sub)
        return str.index(self, sub, *a)

    def rfind(self, sub, *a):
        opaque(self, sub)
        return str.rfind(self, sub, *a)

    def __contains__(self, sub):
        opaque(self, sub)
        return str.__contains__(self, sub)

    def startswith(self, prefix, *a):
        for p in prefix if isinstance(prefix, tuple) else (prefix,):
            q = str(self)
            if q and p and q[0] in World.now.atoms and World.now.may_start(World.now.atoms[q[0]], p[0]):
                raise Split(World.now.atoms[q[0]], p[0], 'start')
        return str.startswith(self, prefix, *a)

    def endswith(self, suffix, *a):
        for p in suffix if isinstance(suffix, tuple) else (suffix,):
            q = str(self)
            if q and p and q[-1] in World.now.atoms and World.now.may_end(World.now.atoms[q[-1]], p[-1]):
                raise Split(World.now.atoms[q[-1]], p[-1])
        return str.endswith(self, suffix, *a)

    def strip(self, chars=None):
        _ends(self, 'lr', chars or WS)
        return T(str.strip(self, chars))

    def lstrip(self, chars=None):
        _ends(self, 'l', chars or WS)
        return T(str.lstrip(self, chars))

    def rstrip(self, chars=None):
        _ends(self, 'r', chars or WS)
        return T(str.rstrip(self, chars))

    def __getitem__(self, i):
        r = str.__getitem__(self, i)
        if marks(self) and isinstance(i, slice):
            a, b, st = i.indices(len(self))
            gone = str.__getitem__(self, slice(0, a)) + str.__getitem__(self, slice(b, None))
            if st != 1 or marks(gone):
                raise GiveUp('slice')
        elif marks(r):
            raise GiveUp('index')
        return T(r)

    def __add__(self, other):
        return T(str.__add__(self, other))

    def __radd__(self, other):
        return T(other + str(self))

    def __eq__(self, other):
        if isinstance(other, str) and len(self) == 1 and marks(self) and not marks(other):
            a = marks(self)[0]
            if World.now.may_be(a, str(other)):
                raise Split(a, str(other), 'is')
        return str.__eq__(self, other)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return str.__hash__(self)

    def __str__(self):
        return str.__str__(self)

    def lower(self):
        if marks(self):
            raise GiveUp('lower')
        return T(str.lower(self))


class SymNum(float):
    """a number known by its placeholder"""
    def __new__(cls, ch):
        self = float.__new__(cls, float(ord(ch)))
        self.ch = ch
        return self

    def __str__(self):
        return self.ch
    __repr__ = __str__

    def __format__(self, spec):
        if spec:
            raise GiveUp('format')
        return self.ch

    def __eq__(self, other):
        return isinstance(other, SymNum) and other.ch == self.ch

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.ch)


def _tree(node, named):
    if isinstance(node, ast.Expression):
        return _tree(node.body, named)
    if isinstance(node, ast.Constant):
        if isinstance(node.value, str):
            opaque(node.value, '\'"\\\n')
        return T(node.value)
    if isinstance(node, (ast.Tuple, ast.List)):
        r = [_tree(e, named) for e in node.elts]
        return tuple(r) if isinstance(node, ast.Tuple) else r
    if isinstance(node, ast.Dict):
        return {_tree(k, named): _tree(v, named) for k, v in zip(node.keys, node.values)}
    if isinstance(node, (ast.Name, ast.Attribute)):
        t = ast.unparse(node)
        if isinstance(node, ast.Name) and len(t) == 1 and marks(t) and marks(t)[0].kind == 'num':
            return SymNum(t)
        for a in marks(t):
            if a.kind == 'num' or World.now.not_word(a):
                raise GiveUp('literal')
            for k in keyword.kwlist:
                if World.now.may_be(a, k):
                    raise Split(a, k, 'is')
        raise named('malformed: %s' % t)
    if isinstance(node, ast.UnaryOp) and not marks(ast.unparse(node)):
        return ast.literal_eval(node)
    raise GiveUp('literal')


def literal(text, named=ValueError, real=ast.literal_eval):
    if not isinstance(text, str) or not marks(text):
        return T(real(text))
    t = str(text).lstrip(' \t')
    if t and t[0] in World.now.atoms:
        a = World.now.atoms[t[0]]
        if a.kind == 'str' and a.first <= frozenset('/*)]}?!%'):
            raise SyntaxError(t)       # no expression starts so
    elif t and t[0] in '/*)]}?!%':
        raise SyntaxError(t)
    return _tree(ast.parse(t, mode='eval'), named)


class _File:
    def __init__(self, f):
        self.f = f

    def __enter__(self):
        self.f.__enter__()
        return self

    def __exit__(self, *a):
        return self.f.__exit__(*a)

    def readlines(self, *a):
        return list(map(T, self.f.readlines(*a)))

    def read(self, *a):
        return T(self.f.read(*a))

    def readline(self, *a):
        return T(self.f.readline(*a))

    def __iter__(self):
        return map(T, self.f)

    def __next__(self):
        return T(next(self.f))

    def __getattr__(self, n):
        return getattr(self.f, n)


def _open(path, mode='r', *a, **k):
    if 'b' not in mode:
        k.setdefault('encoding', 'utf-8')
    return _File(builtins.open(path, mode, *a, **k))


class _Ast:
    literal_eval = staticmethod(literal)

    def __getattr__(self, n):
        return getattr(ast, n)


def _float(t=0.):
    if isinstance(t, str) and marks(t):
        if len(t.strip()) == 1 and marks(t)[0].kind == 'num':
            return SymNum(t.strip())
        raise ValueError(t)
    return float(t)


def install(module):
    """the text operations of a module of pyphs: files, literals and numbers"""
    module.open = _open
    module.ast = _Ast()
    module.eval = lambda t, *a: literal(t, NameError, lambda q: eval(q, *a))
    module.float = _float


def explore(s, key, atoms, body, check, runs=60):
    """run body(values) where values maps the names of the atoms to symbolic strings and numbers, for every
    value of the atoms; check(values, result) tells whether the result is right"""
    w = World(s)
    todo = [{a.name: [a] for a in atoms}]
    n = 0
    while todo:
        form = todo.pop(0)
        n += 1
        if n > runs:
            s.expect('%s_more' % key, True, 'further splits are left out')
            break
        World.now = w
        w.atoms = {}
        vals = {}
        for name in sorted(form):
            parts = []
            for p in form[name]:
                if isinstance(p, Atom):
                    p.ch = chr(_first + len(w.atoms))
                    w.atoms[p.ch] = p
                    parts.append(p.ch)
                else:
                    parts.append(p)
            one = form[name][0]
            num = isinstance(one, Atom) and one.kind == 'num'
            vals[name] = SymNum(parts[0]) if num else ''.join(parts)
            if not num and not any(isinstance(p, Atom) for p in form[name]) and name.startswith('num'):
                vals[name] = float(vals[name])
        try:
            bad = None
            for a in list(w.atoms.values()):
                if w.member(a) is None:
                    raise StopIteration
            res = body(vals)
            if check(vals, res):
                s._ok('%s_%d' % (key, n), 'same for every value of %s' % sorted(form))
                continue
            bad = 'got %r for %r' % (res, vals)
        except StopIteration:
            continue
        except Split as e:
            for name, parts in form.items():
                for i, p in enumerate(parts):
                    if p is e.atom:
                        for q in split(p, e.c, e.how, w):
                            f = dict(form)
                            f[name] = parts[:i] + q + parts[i + 1:]
                            todo.append(f)
            continue
        except GiveUp as e:
            concrete(s, '%s_%d' % (key, n), form, body, check, w, str(e), True)
            continue
        except Exception as e:
            bad = 'raised %r' % e
        concrete(s, '%s_%d' % (key, n), form, body, check, w, bad, False)
    World.now = Blank


def split(a, c, how, w):
    if how == 'is':
        return [[c], [a.but(excl=a.excl | {c})]]
    if a.kind == 'num':
        v = w.ask(a, 'holds %r' % c, lambda s: [z3.Contains(s, z3.StringVal(c))])
        return [[v], [a.but(cls=a.cls - {c})]]
    if how == 'start':
        return [[a.but(first=a.first - {c})], [c, a.but(name=a.name + "'", first=a.cls, empty=True)]]
    rest = a.cls - {c} if a.name.count('>') >= 1 else a.cls    # at most two occurrences of a separator
    rest = a.but(name=a.name + '>', cls=rest, first=rest, empty=True)
    out = [[a.but(cls=a.cls - {c}, first=a.first - {c})],
           [a.but(name=a.name + '<', cls=a.cls - {c}, first=a.first - {c}, empty=False), c, rest]]
    if c in a.first or a.empty:
        out.append([c, rest])
    return out


def concrete(s, key, form, body, check, w, why, allowed):
    """run the real code on members of the languages: the replay of a counterexample"""
    vals = {}
    for name, parts in form.items():
        v = ''.join(w.member(p) if isinstance(p, Atom) else p for p in parts)
        vals[name] = float(v) if name.startswith('num') else v
    World.now = Blank
    try:
        res = body(vals)
        ok = check(vals, res)
        got = repr(res)
    except Exception as e:
        ok, got = False, 'raised %r' % e
    World.now = w
    if not ok:
        s.violate(key, '%s for %r' % (got[:400], vals), {k: str(v) for k, v in vals.items()})
    elif allowed:
        s.expect(key, True, 'checked on an instance: %s' % why)
    else:
        s.undecided.append((key, why[:300]))
