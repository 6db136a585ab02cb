"""C14: recorded simulation data are returned exactly as computed."""
import itertools
import math
import os
import shutil
import tempfile
import types
import numpy
from vlib import num
num.install()
from vlib.env import import_pyphs  # noqa
pyphs = import_pyphs(DTYPE=numpy.object_, THEANO=False)
import sympy as sp  # noqa
from vlib import cores  # noqa
from vlib.num import Num  # noqa
from pyphs import Core  # noqa
from pyphs.numerics.simulations.h5data import h5data as mod  # noqa
from pyphs.numerics.simulations.h5data import tools  # noqa
from pyphs.numerics.simulations import simulation as simod  # noqa
num.proxy_modules()
num.Explorer.linear = True
S = cores.S

META = dict(
    explanation='H5Data (init_data, h5dump_vecs, h5dump_seqs, readers, windows, derived quantities) and '
    'Simulation.process run on symbolic samples; the h5 file is replaced by an array of symbols with the '
    'indexing of h5py (rows and columns selections, resize, several handles, access refused once closed). '
    'Start, stop, step and component indices, and start and stop times (any real), are symbols too: every '
    'feasible window is a path of the exploration. On each path z3 proves that the values read are those '
    'recorded for the samples of the window, aligned with their times, and that derived quantities are their '
    'definition on the recorded values.',
    bounds=['1 to 4 samples (thorough 6), every start, stop, step; all values of samples; all real times',
            'chunk sizes 1 to 4', 'the cores of checks/c14.py (parameters, observers, nonlinear energies, no '
            'storage, no dissipation)', 'simulation runs of up to 3 steps of linear systems'],
    outside=['h5py itself: what a dataset stores is what it returns; conversion to float64',
             'rounding of times (t*fs in floats)', 'plots', 'vslice of concatenated quantities (a, b, args)',
             'time steps of the energy difference beyond the documented definition'],
    assumptions=['real arithmetic'],
    functions=['H5Data.__init__', 'H5Data.init_data', 'H5Data.h5dump_vecs', 'H5Data.h5dump_seqs',
               'H5Data.__getitem__', 'H5Data._tslice', 'H5Data._tuple2slice', 'H5Data.t', 'H5Data.dtx', 'H5Data.a',
               'H5Data.b', 'H5Data.args', 'H5Data.o', 'H5Data.E', 'H5Data.dtE', 'H5Data.pd', 'H5Data.ps',
               'start/stop/step/tstart/tstop', 'set_dataset_from_iterable', 'Simulation.process'])

NAMES = ('x', 'dx', 'dxH', 'w', 'z', 'y')


# ------------------------------------------------------------------ stand-in of h5py
FILES = {}


class Dataset:
    def __init__(self, f, key):
        self.f, self.key = f, key

    @property
    def a(self):
        if not self.f.alive:
            raise ValueError('Not a dataset (file closed)')
        return self.f.store[self.key]

    shape = property(lambda self: self.a.shape)
    dtype = property(lambda self: numpy.dtype(object))

    def resize(self, size, axis=None):
        old = self.a
        if axis is not None:
            size = tuple(size if i == axis else n for i, n in enumerate(old.shape))
        new = numpy.empty(size, dtype=object)
        new[...] = Num(0)
        r, c = (min(p, q) for p, q in zip(old.shape, size))
        new[:r, :c] = old[:r, :c]
        self.f.store[self.key] = new

    def index(self, i):
        i = i if isinstance(i, tuple) else (i,)
        out = []
        for k, v in enumerate(i):
            if isinstance(v, (range, list, tuple, numpy.ndarray)):
                v = [int(j) for j in v]
                if any(p >= q for p, q in zip(v, v[1:])):
                    raise TypeError('Indexing elements must be in increasing order')
            elif isinstance(v, slice) and v.step is not None and v.step < 1:
                raise ValueError('Step must be >= 1')
            elif isinstance(v, int) and not -self.a.shape[k] <= v < self.a.shape[k]:
                raise ValueError('Index (%s) out of range' % v)
            out.append(v)
        return tuple(out)

    def __getitem__(self, i):
        v = self.a[self.index(i)]
        return v.copy() if isinstance(v, numpy.ndarray) else v

    def __setitem__(self, i, v):
        v = numpy.asarray(v, dtype=object)
        self.a[self.index(i)] = v

    def __len__(self):
        return self.a.shape[0]

    def __array__(self, dtype=None):
        return self.a.copy()

    def __iter__(self):
        return iter(self.a.copy())


class Plain:
    """names, groups"""

    def __init__(self, v=None):
        self.v, self.attrs = v, {}

    def __getitem__(self, i):
        return self.v[i]


class File:
    def __init__(self, path, mode='a', **k):
        path = os.path.abspath(path)
        if mode in ('w', 'w-', 'x') or (mode == 'a' and not os.path.exists(path)):
            FILES[path] = {}
            with open(path, 'w'):
                pass
        elif not os.path.exists(path):
            raise OSError('Unable to open file')
        self.store, self.alive, self.ro = FILES[path], True, mode == 'r'

    def create_dataset(self, name, shape=None, dtype=None, data=None, maxshape=None, **k):
        data = numpy.array(data, dtype=object)
        if dtype is not None and str(dtype).startswith('S'):
            self.store[name] = Plain(data.reshape(shape))
            return self.store[name]
        if shape is not None:
            data = data.reshape(shape)
        out = numpy.empty(data.shape, dtype=object)
        for i, v in numpy.ndenumerate(data):
            out[i] = num._coerce(v)
        self.store[name] = out
        return Dataset(self, name)

    def create_group(self, name):
        self.store[name] = Plain()
        return self.store[name]

    def __getitem__(self, name):
        if not self.alive:
            raise ValueError('Not a location (file closed)')
        v = self.store[name]
        return Dataset(self, name) if isinstance(v, numpy.ndarray) else v

    def __contains__(self, name):
        return name in self.store

    def keys(self):
        return self.store.keys()

    def flush(self):
        pass

    def close(self):
        self.alive = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __bool__(self):
        return self.alive


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (int, Num))


class Int(metaclass=_IntMeta):
    """`int` of a symbolic real: its integer part, by cases"""

    def __new__(cls, v=0, *a):
        if isinstance(v, Num):
            c = v.const()
            if c is not None:
                return math.trunc(c)
            for k in range(0, 12):
                if v < k + 1 and v > -1 if k == 0 else v < k + 1:
                    return k
            raise RuntimeError('int of an unbounded symbol')
        return int(v, *a)


class Proxy(num.NumpyProxy):
    float64 = numpy.object_

    def fromiter(self, it, dtype=None, count=-1, **k):
        out = []
        it = iter(it)
        while count < 0 or len(out) < count:
            try:
                out.append(next(it))
            except StopIteration:
                if count > 0:
                    raise ValueError('iterator too short')
                break
        a = numpy.empty(len(out), dtype=object)
        for i, v in enumerate(out):
            a[i] = num._coerce(v)
        return a

    def einsum(self, spec, *ops, **k):
        if not any(numpy.asarray(o).dtype == object for o in ops):
            return numpy.einsum(spec, *ops, **k)
        ins, _, out = spec.replace(' ', '').partition('->')
        ins = ins.split(',')
        size = {}
        for i, o in zip(ins, ops):
            if len(i) != o.ndim:
                raise ValueError('einstein sum subscripts do not match the operand')
            for c, n in zip(i, o.shape):
                if size.setdefault(c, n) != n and 1 not in (n, size[c]):
                    raise ValueError('operands could not be broadcast together')
        free = sorted(set(''.join(ins)) - set(out))
        res = numpy.empty([size[c] for c in out], dtype=object)
        for idx in itertools.product(*(range(size[c]) for c in out)):
            tot = Num(0)
            for jdx in itertools.product(*(range(size[c]) for c in free)):
                e = dict(zip(list(out) + free, idx + jdx))
                t = Num(1)
                for i, o in zip(ins, ops):
                    t = t * o[tuple(e[c] for c in i)]
                tot = tot + t
            res[idx] = tot
        return res

    def ediff1d(self, a, to_end=None, to_begin=None):
        a = list(numpy.asarray(a, dtype=object).ravel())
        v = ([] if to_begin is None else list(numpy.ravel(to_begin))) + [q - p for p, q in zip(a, a[1:])] + (
            [] if to_end is None else list(numpy.ravel(to_end)))
        out = numpy.empty(len(v), dtype=object)
        out[:] = v
        return out

    def diff(self, a, *k, **kw):
        return self.ediff1d(a)


def _ceil(v):
    k = Int(v)
    return k if v == k else k + 1


Num.__floor__ = Num.__trunc__ = lambda v: Int(v)
Num.__ceil__ = _ceil
Num.floor = lambda v: Num(Int(v))
Num.ceil = lambda v: Num(_ceil(v))
P = Proxy(numpy)
mod.h5py = types.SimpleNamespace(File=File)
mod.numpy = P
mod.int = Int
tools.np = P


# ------------------------------------------------------------------ objects
def rlc():
    """two storages, one linear dissipation, two ports, a parameter"""
    core = Core('rlc')
    x1, x2, w1, c1, r, u1, u2, y1, y2, p1 = S(['x1', 'x2', 'w1', 'c1', 'r', 'u1', 'u2', 'y1', 'y2', 'p1'])
    core.add_storages([x1, x2], x1**2/2 + c1*x2**2/2)
    core.add_dissipations([w1], [p1*w1])
    core.add_ports([u1, u2], [y1, y2])
    core.add_parameters([p1])
    core.subs[c1] = 3.
    n = core.dims.tot()
    core.set_Jxx([[0, -1], [1, 0]])
    core.set_Jxw([[-1], [2]])
    core.set_Jxy([[1, 0], [1, -1]])
    assert n == 5
    return core


def nl():
    core = Core('nl')
    x1, x2, w1, w2, u1, y1 = S(['x1', 'x2', 'w1', 'w2', 'u1', 'y1'])
    core.add_storages([x1, x2], x1**4 + x2**2/2)
    core.add_dissipations([w1, w2], [w1**3, 2*w2])
    core.add_ports([u1], [y1])
    core.set_Jxw([[-1, 0], [1, -1]])
    core.set_Jxy([[1], [0]])
    return core


def obs():
    core = Core('obs')
    x1, w1, u1, y1, o1, o2, p1 = S(['x1', 'w1', 'u1', 'y1', 'o1', 'o2', 'p1'])
    core.add_storages([x1], x1**2/2)
    core.add_dissipations([w1], [o1*w1])
    core.add_ports([u1], [y1])
    core.add_parameters([p1])
    core.add_observer({o1: x1**2 + p1, o2: x1 - u1})
    core.set_Jxw([[-1]])
    core.set_Jxy([[1]])
    return core


def diss():
    """no storage"""
    core = Core('diss')
    w1, u1, u2, y1, y2 = S(['w1', 'u1', 'u2', 'y1', 'y2'])
    core.add_dissipations([w1], [2*w1])
    core.add_ports([u1, u2], [y1, y2])
    core.set_Jwy([[1, -1]])
    return core


def stor():
    """no dissipation"""
    core = Core('stor')
    x1, x2, u1, y1 = S(['x1', 'x2', 'u1', 'y1'])
    core.add_storages([x1, x2], x1**2/2 + x2**2)
    core.add_ports([u1], [y1])
    core.set_Jxx([[0, -1], [1, 0]])
    core.set_Jxy([[1], [0]])
    return core


CORES = dict(rlc=rlc, nl=nl, obs=obs, diss=diss, stor=stor)
_METH = {}


def method(name):
    if name not in _METH:
        _METH[name] = CORES[name]().to_method(config=dict(grad='discret'))
    return _METH[name]


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='c14')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)
        FILES.clear()


def config(path, fs):
    return dict(fs=fs, nt=None, dnames=list(NAMES), path=path, load=dict(start=None, stop=None, step=1))


def dims(m):
    return dict(x=m.dims.x(), dx=m.dims.x(), dxH=m.dims.x(), w=m.dims.w(), z=m.dims.w(), u=m.dims.y(),
                y=m.dims.y(), p=m.dims.p())


def fill(chk, m, d, nt, order=None, partial=False):
    """record symbols; returns {name: rows}"""
    rec = {}
    for n, k in dims(m).items():
        rec[n] = [[chk.inp('%s%d_%d' % (n, j, i)) for j in range(k)] for i in range(nt)]
    d.init_data(nt=nt, sequ=arr(rec['u']) if dims(m)['u'] else None, seqp=arr(rec['p']) if dims(m)['p'] else None)
    for i in (order or range(nt)):
        data = {n: arr(rec[n][i]) for n in NAMES}
        if partial:
            # in two calls: what a call does not give is kept
            d.h5dump_vecs(i, {n: data[n] for n in NAMES[:3]})
            d.h5dump_vecs(i, {n: data[n] for n in NAMES[3:]})
        else:
            d.h5dump_vecs(i, data)
    return rec


def arr(rows):
    a = numpy.empty((len(rows), len(rows[0])) if rows and isinstance(rows[0], list) else (len(rows),), dtype=object)
    for i, r in enumerate(rows):
        if isinstance(r, list):
            for j, v in enumerate(r):
                a[i, j] = v
        else:
            a[i] = r
    return a


def same(chk, key, got, want, what):
    """nested lists"""
    g = numpy.asarray(got, dtype=object)
    w = numpy.empty(shape(want), dtype=object)
    for i, _ in numpy.ndenumerate(w):
        v = want
        for k in i:
            v = v[k]
        w[i] = v
    ok = g.shape == w.shape or (g.size == 0 and w.size == 0 and g.shape[:1] == w.shape[:1])
    chk.expect(key + '_shape', ok, '%s: shape %s instead of %s' % (what, g.shape, w.shape))
    if ok:
        for i, v in numpy.ndenumerate(g):
            chk.eq('%s_%s' % (key, '_'.join(map(str, i))), v, w[i], '%s, entry %s' % (what, i))


def shape(v):
    out = ()
    while isinstance(v, list):
        out += (len(v),)
        if not v:
            break
        v = v[0]
    return out


def pick(chk, name, lo, hi):
    """any integer in lo..hi, one per path: the integer part of a symbol in [lo, hi + 1)"""
    v = chk.inp(name)
    chk.assume(v >= lo)
    chk.assume(v < hi + 1)
    for k in range(lo, hi):
        if v < k + 1:
            return k
    return hi


# ------------------------------------------------------------------ scenarios
def window(s, core, nt, fs, names):
    """start, stop and step as attributes"""
    m = method(core)

    def body(chk):
        with Scratch() as path:
            d = mod.H5Data(m, config(path, fs), erase=True)
            rec = fill(chk, m, d, nt)
            a = pick(chk, 'start', 0, nt - 1)
            b = pick(chk, 'stop', a + 1, nt)
            c = pick(chk, 'step', 1, nt)
            d.start, d.stop, d.step = a, b, c
            sel = list(range(a, b, c))
            same(chk, 't', d.t(), [num._coerce(i) / num._coerce(fs) for i in sel], 'times')
            same(chk, 'tg', d['t'], [num._coerce(i) / num._coerce(fs) for i in sel], 'times')
            for n in names:
                same(chk, n, d[n], [rec[n][i] for i in sel], n)
                same(chk, n + 'f', getattr(d, n)(postprocess=lambda v: v*2), [[2*v for v in rec[n][i]] for i in sel],
                     n + ' postprocessed')
            d.start = d.stop = d.step = None
            for n in names:
                same(chk, n + 'all', d[n], rec[n], n + ' without window')
    num.prove_paths(s, body, max_paths=400)


def slices(s, core, nt, name):
    """explicit time and component slices"""
    m = method(core)
    k = dims(m)[name]

    def body(chk):
        with Scratch() as path:
            d = mod.H5Data(m, config(path, 2.), erase=True)
            rec = fill(chk, m, d, nt, order=reversed(range(nt)))
            col = list(zip(*rec[name]))
            i = pick(chk, 'i', 0, nt - 1)
            b = pick(chk, 'stop', i + 1, nt)
            c = pick(chk, 'step', 1, 2)
            full = list(range(nt))
            same(chk, 'row', d[name, i], [rec[name][i]], '%s at one time' % name)
            for t in (slice(i, b, c), slice(i, None), slice(None, b), slice(None, None, c)):
                sel = full[t]
                tag = str(t).replace(' ', '')
                same(chk, 'r' + tag, d[name, t], [rec[name][q] for q in sel], '%s[%s]' % (name, tag))
                for j in range(k):
                    same(chk, 'c%d%s' % (j, tag), d[name, t, j], [col[j][q] for q in sel], '%s[%s, %d]' % (name, tag, j))
                for v in (slice(0, 1), slice(1, None), slice(None, k), slice(None, None, 2)):
                    if len(range(k)[v]):
                        same(chk, 's%s%s' % (v, tag), d[name, t, v], [rec[name][q][v] for q in sel],
                             '%s[%s, %s]' % (name, tag, v))
            # the window of the object does not apply to the bounds given
            d.start, d.step = (1, 2) if nt > 1 else (0, 1)
            sel = full[i:b]
            same(chk, 'over', d[name, slice(i, b, 1)], [rec[name][q] for q in sel], 'explicit window')
            same(chk, 'part', d[name, slice(None, None, 1)], [rec[name][q] for q in full[d.start:]], 'partly explicit')
    num.prove_paths(s, body, max_paths=400)


def times(s, core, nt, fs, order):
    """start and stop given as times (any real numbers)"""
    m = method(core)

    def body(chk):
        with Scratch() as path:
            d = mod.H5Data(m, config(path, fs), erase=True)
            rec = fill(chk, m, d, nt)
            t0, t1 = chk.inp('t0'), chk.inp('t1')
            last = num._coerce(nt - 1) / num._coerce(fs)
            chk.assume(t0 >= 0)
            chk.assume(t0 <= t1)
            chk.assume(t1 <= last)
            if order == 'ab':
                d.tstart = t0
                d.tstop = t1
            else:
                d.tstop = t1
                # the time of the last sample of the window
                chk.assume(num._coerce(d.tstop) >= t0)
                d.tstart = t0
            f = num._coerce(fs)
            a, b = d.start, d.stop
            for key, c in (('a0', num._coerce(a) <= t0*f), ('a1', num._coerce(a + 1) > t0*f),
                           ('b0', num._coerce(b - 1) <= t1*f), ('b1', num._coerce(b) > t1*f)):
                chk.rel(key, c, None, 'first and last samples of the window [tstart, tstop]')
            sel = list(range(a, b))
            same(chk, 'x', d['y'], [rec['y'][i] for i in sel], 'y in the time window')
            same(chk, 't', d.t(), [num._coerce(i) / f for i in sel], 'times of the window')
            chk.eq('tstart', d.tstart, num._coerce(a) / f, 'tstart read back')
            chk.eq('tstop', d.tstop, num._coerce(b - 1) / f, 'tstop read back')
            d.tstart = None
            d.tstop = None
            same(chk, 'all', d['y'], rec['y'], 'y once the window is removed')
    num.prove_paths(s, body, max_paths=400)


def refuse(s, core, nt):
    """windows outside the recording are refused, and leave the window as it was"""
    m = method(core)

    def body(chk):
        with Scratch() as path:
            d = mod.H5Data(m, config(path, 2.), erase=True)
            rec = fill(chk, m, d, nt)
            for attr, bad in (('start', (-1, nt)), ('stop', (0, nt + 1, -1)), ('step', (0, -1)),
                              ('tstart', (-.5, nt/2.)), ('tstop', (-.5, nt/2.))):
                for v in bad:
                    try:
                        setattr(d, attr, v)
                        ok = False
                    except ValueError:
                        ok = True
                    chk.expect('%s%s' % (attr, v), ok, '%s = %s is refused' % (attr, v))
            same(chk, 'all', d['x'], rec['x'], 'data after a refused window')
    num.prove_paths(s, body)


def value(e, m, rec, i):
    """expression of the method on the values recorded for sample i"""
    env = {}
    for n, syms in (('x', m.x), ('dx', m.dx()), ('w', m.w), ('u', m.u), ('p', m.p)):
        for v, q in zip(syms, rec[n][i]):
            env[str(v)] = q
    e = sp.sympify(e)
    for _ in range(3):
        e = e.subs(list(m.observers.items())).subs([(k, sp.nsimplify(v, rational=True)) for k, v in m.subs.items()])
    return num.evaluate(e, env)


def derived(s, core, nt, fs):
    """quantities computed from the records"""
    m = method(core)
    dm = dims(m)

    def body(chk):
        with Scratch() as path:
            d = mod.H5Data(m, config(path, fs), erase=True)
            rec = fill(chk, m, d, nt)
            a = pick(chk, 'start', 0, nt - 1)
            b = pick(chk, 'stop', a + 1, nt)
            c = pick(chk, 'step', 1, min(nt, 3))
            d.start, d.stop, d.step = a, b, c
            sel = list(range(a, b, c))
            f = num._coerce(fs)
            dtx = [[f*v for v in r] for r in rec['dx']]

            def dot(p, q):
                t = Num(0)
                for i, j in zip(p, q):
                    t = t + i*j
                return t
            H = [value(m.H, m, rec, i) for i in range(nt)]
            want = dict(
                dtx=[dtx[i] for i in sel],
                a=[rec['dxH'][i] + rec['z'][i] + rec['u'][i] for i in sel],
                b=[dtx[i] + rec['w'][i] + rec['y'][i] for i in sel],
                args=[rec['x'][i] + rec['dx'][i] + rec['w'][i] + rec['u'][i] + rec['p'][i] for i in sel],
                ps=[dot(rec['u'][i], rec['y'][i]) for i in sel],
                pd=[value(sum((p*q for p, q in zip(m.w, m.z)), sp.S(0)), m, rec, i) for i in sel],
                E=[H[i] for i in sel],
                dtE=[dot(rec['dxH'][i], dtx[i]) for i in sel])
            if dm['x']:
                e = H
                # difference of the energy over the decimated samples, per unit of time
                diff = [(e[q] - e[p])*f/num._coerce(c) for p, q in zip(sel, sel[1:])]
                got = d.dtE(DtE='deltaH')
                same(chk, 'deltaH', list(got)[:-1], diff, 'difference of energy')
                chk.expect('deltaHn', len(got) == len(sel), 'number of values of the difference of energy')
                if c == 1:
                    chk.eq('deltaHl', got[-1], dot(rec['dxH'][b - 1], dtx[b - 1]), 'last difference of energy')
            if m.observers:
                want['o'] = [[value(v, m, rec, i) for v in m.observers.values()] for i in sel]
            for n, w in want.items():
                same(chk, n, d[n], w, n)
                same(chk, n + 'm', getattr(d, n)(), w, n)
            # windows given explicitly, whatever the window of the object
            t = slice(0, nt, 1)
            same(chk, 'psx', d['ps', t], [dot(rec['u'][i], rec['y'][i]) for i in range(nt)], 'ps, explicit window')
            same(chk, 'Ex', d['E', t], H, 'E, explicit window')
            same(chk, 'dtEx', d['dtE', t], [dot(rec['dxH'][i], dtx[i]) for i in range(nt)], 'dtE, explicit window')
            same(chk, 'pdx', d['pd', t], [value(sum((p*q for p, q in zip(m.w, m.z)), sp.S(0)), m, rec, i)
                                          for i in range(nt)], 'pd, explicit window')
            if dm['x']:
                same(chk, 'deltaHx', d.dtE(tslice=t, DtE='deltaH'), [(q - p)*f for p, q in zip(H, H[1:])] + [
                    dot(rec['dxH'][nt - 1], dtx[nt - 1])], 'difference of energy, explicit window')
            # still the data
            same(chk, 'after', d['x', t], rec['x'], 'x after the reads')
    num.prove_paths(s, body, max_paths=400)


def partial(s, core, nt):
    m = method(core)

    def body(chk):
        with Scratch() as path:
            d = mod.H5Data(m, config(path, 2.), erase=True)
            rec = fill(chk, m, d, nt, partial=True)
            for n in ('u', 'p') + NAMES:
                if dims(m)[n]:
                    same(chk, n, d[n], rec[n], '%s recorded in several calls' % n)
            # again, shorter or longer: nothing is left of the previous recording
            for k in (nt + 1, 1):
                r2 = [[chk.inp('v%d%d%d' % (k, i, j)) for j in range(dims(m)['u'])] for i in range(k)]
                d.init_data(sequ=arr(r2))
                same(chk, 'u%d' % k, d['u'], r2, 'inputs of a new recording')
                same(chk, 'x%d' % k, d['x'], [[Num(0)]*dims(m)['x'] for i in range(k)], 'states of a new recording')
                chk.expect('nt%d' % k, d.nt == k, 'number of samples')
    num.prove_paths(s, body)


def reload_(s, core, nt):
    """a second object on the same file"""
    m = method(core)

    def body(chk):
        with Scratch() as path:
            d = mod.H5Data(m, config(path, 2.), erase=True)
            rec = fill(chk, m, d, nt)
            d.start = nt - 1
            e = mod.H5Data(m, config(path, 2.), erase=False)
            for n in ('u', 'p') + NAMES:
                if dims(m)[n]:
                    same(chk, n, e[n], rec[n], '%s of a recording opened again' % n)
            chk.expect('nt', e.nt == nt, 'number of samples of a recording opened again')
            g = mod.H5Data(m, config(path, 2.), erase=True)
            chk.expect('dims', g.dims == d.dims and g.inds == d.inds, 'dimensions')
    num.prove_paths(s, body)


def chunks(s, nrows, ncols, chunk, deep):
    """set_dataset_from_iterable"""
    def body(chk):
        with Scratch() as path:
            f = File(os.path.join(path, 'f'), 'w')
            rows, cols = nrows + 1, ncols + 1
            for k, (rs, cs) in enumerate(((None, None), (slice(0, nrows), slice(0, ncols)),
                                          (slice(1, nrows + 1), slice(1, ncols + 1)),
                                          (slice(0, nrows + 1, 2), slice(0, ncols)))):
                ds = f.create_dataset('d%d' % k, data=numpy.zeros((rows, cols)))
                r, c = list(range(rows))[rs or slice(None)], list(range(cols))[cs or slice(None)]
                v = [[chk.inp('v%d_%d' % (i, j)) for j in range(len(c))] for i in range(len(r))]
                for how in ('array', 'list', 'gen'):
                    src = arr(v) if how == 'array' else v if how == 'list' else (list(q) for q in v)
                    tools.set_dataset_from_iterable(ds, src, rs, cs, chunksize=chunk)
                    want = [[Num(0)]*cols for _ in range(rows)]
                    for i, p in enumerate(r):
                        for j, q in enumerate(c):
                            want[p][q] = v[i][j]
                    same(chk, 'w%d%s' % (k, how), ds[:, :], want, 'rows %s, columns %s from %s' % (rs, cs, how))
    num.prove_paths(s, body)


def process(s, core, nt, fs, params):
    """what a simulation records is what the engine computes"""
    def body(chk):
        with Scratch() as path:
            m = CORES[core]().to_method(config=dict(grad='discret'))
            dm = dims(m)
            ini = {'x': [.5 + i for i in range(dm['x'])]} if dm['x'] else {}
            simu = simod.Simulation(m, config=dict(path=path, lang='python', fs=fs, pbar=False, theano=False,
                                                   dnames=list(NAMES), load=dict(start=None, stop=None, step=1)),
                                    inits=ini)
            u = [[chk.inp('u%d_%d' % (i, j)) for j in range(dm['u'])] for i in range(nt)]
            p = [[num._coerce(params[i][j]) for j in range(dm['p'])] for i in range(nt)]
            simu.init(u=arr(u), p=arr(p) if dm['p'] else None)
            simu.process()
            ref = m.to_numeric(inits=ini, config={'fs': fs, 'theano': False})
            for i in range(nt):
                ref.update(u=arr(u[i]), p=arr(p[i]) if dm['p'] else None)
                for n in NAMES:
                    if dm[n]:
                        v = getattr(ref, n)
                        v = v() if callable(v) else v
                        same(chk, '%s%d' % (n, i), simu.data[n, i], [list(v)], '%s recorded at step %d' % (n, i))
            same(chk, 'u', simu.data['u'], u, 'inputs recorded')
            if dm['p']:
                same(chk, 'p', simu.data['p'], p, 'parameters recorded')
            chk.expect('nt', simu.data.nt == nt, 'number of samples')
    num.prove_paths(s, body, max_paths=60)


def scenarios(tier):
    deep = tier == 'thorough'
    out = []
    N = 6 if deep else 4
    for nt in range(1, N + 1):
        out.append(('window_rlc_%d' % nt, window, dict(core='rlc', nt=nt, fs=2., names=('x', 'y', 'u') if nt > 3 else (
            'u', 'p') + NAMES)))
        out.append(('times_ab_%d' % nt, times, dict(core='stor', nt=nt, fs=2., order='ab')))
        out.append(('times_ba_%d' % nt, times, dict(core='stor', nt=nt, fs=.25, order='ba')))
    for c in CORES:
        out.append(('derived_' + c, derived, dict(core=c, nt=4 if deep else 3, fs=2.)))
        out.append(('partial_' + c, partial, dict(core=c, nt=3)))
        out.append(('reload_' + c, reload_, dict(core=c, nt=2)))
        for n in ('x', 'w', 'u', 'p', 'z', 'dxH'):
            if dims(method(c))[n] and (deep or (c, n) in (('rlc', 'x'), ('rlc', 'u'), ('rlc', 'p'), ('diss', 'u'), ('nl', 'w'))):
                out.append(('slices_%s_%s' % (c, n), slices, dict(core=c, nt=3, name=n)))
    out.append(('refuse', refuse, dict(core='rlc', nt=3)))
    for nr, nc, ch in itertools.product((1, 2, 3, 5), (1, 2), (1, 2, 3, 4)):
        out.append(('chunks_%d_%d_%d' % (nr, nc, ch), chunks, dict(nrows=nr, ncols=nc, chunk=ch, deep=deep)))
    out.append(('process_rlc', process, dict(core='rlc', nt=2, fs=2., params=[[.5], [2.], [1.]])))
    out.append(('process_stor', process, dict(core='stor', nt=3, fs=4., params=None)))
    out.append(('process_diss', process, dict(core='diss', nt=3, fs=2., params=None)))
    return out
