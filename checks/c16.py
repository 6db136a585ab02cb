"""C16: signal generators produce the documented signals; wave files hold the signal written."""
import itertools
import math
import fractions
import numpy
from vlib import num
num.install()
from vlib.env import import_pyphs  # noqa
pyphs = import_pyphs()
from vlib.num import Num, z3, zt  # noqa
from pyphs.misc.signals.synthesis import synthesis_array as syn  # noqa
from pyphs.misc.signals import waves, processing  # noqa
from pyphs.misc.signals.synthesis import signalgenerator  # noqa
FR = fractions.Fraction

META = dict(
    explanation='signalgenerator is executed with symbolic amplitudes, frequencies, offsets and noise '
    '(random numbers are symbolic values in the interval they are drawn from) for every combination of '
    'signal type and options of a family of durations; z3 proves sample by sample that the signal is '
    'silence, cycles (with envelope, ramp, duty cycle and offset) and silence, as documented. '
    'build_parameters is executed with symbolic durations, rates and ratios. wavwrite and wavread are '
    'executed on symbolic samples with the file replaced by a record of the frames.',
    bounds=['up to 3 cycles of up to 6 samples, all amplitudes, frequencies, offsets, noises',
            'durations, rate and ratios symbolic for the numbers of samples',
            'wave files of up to 4 samples'],
    outside=['the values of scipy.signal.chirp and resample', 'rounding of float arithmetic',
             'the definition of the frequencies of a sweep beyond its phase at the two ends'],
    assumptions=['real arithmetic; sin and cos are uninterpreted'],
    functions=['signalgenerator', 'build_parameters', 'sine', 'cosine', 'constant', 'randomuniform',
               'sweep_cosine', 'wavwrite', 'wavread', 'lowpass'])

FS = 8




class Draw:
    """numpy.random.uniform(low, high, n): symbols u_k in [0, 1], value low + (high - low) u_k"""

    def __init__(self, chk):
        self.chk, self.drawn = chk, []

    def __call__(self, low=0., high=1., size=None):
        n = 1 if size is None else int(size)
        out = numpy.empty(n, dtype=object)
        for k in range(n):
            u = self.chk.inp('rnd%d' % len(self.drawn))
            self.chk.assume(u >= 0)
            self.chk.assume(u <= 1)
            self.drawn.append(u)
            out[k] = num._coerce(low) + (num._coerce(high) - num._coerce(low)) * u
        return out if size is not None else out[0]


class Conj:
    """several comparisons stated as one obligation"""

    def __init__(self):
        self.rels = []

    def append(self, r):
        self.rels.append(r)

    def state(self, chk, key, what):
        if self.rels:
            c = all(bool(r) for r in self.rels) if chk.values is not None else \
                z3.And([r.z3() for r in self.rels])
            chk.rel(key, num.SymBool(c), None, what)


def patched(chk):
    d = Draw(chk)
    syn.uniform = d
    numpy.random.uniform = d
    return d


def get(kw, k, default):
    return kw.get(k, default)


def expected(which, kw, chk, amp, drawn):
    """documented signal, sample by sample; None: unspecified value"""
    fs = kw['fs']
    nsig, ndeb, nend = (int(round(kw.get(k, dflt) * fs)) for k, dflt in
                        (('tsig', 1.), ('tdeb', 0.), ('tend', 0.)))
    non = int(nsig * kw.get('cycle_ratio', 1.))
    na, nd = int(kw.get('attack_ratio', 0.) * non), int(kw.get('decay_ratio', 0.) * non)
    nc = kw.get('ncycles', 1)
    out = [('sil', None)] * ndeb
    for c in range(nc):
        for i in range(nsig):
            if i >= non:
                out.append(('off', None))
                continue
            env = FR(1)
            if na:
                env *= min(FR(1), FR(i, na))
            if nd:
                env *= min(FR(1), FR(non - i, nd))
            if kw.get('ramp_on'):
                env *= FR(c * nsig + i, nc * nsig - 1)
            t = Num(FR(i)) / fs
            if which == 'zero':
                v = Num(FR(0))
            elif which in ('const', 'step'):
                v = amp['A']
            elif which == 'sin':
                v = amp['A'] * wave(chk, 'sin', amp['f0'], t)
                if 'A1' in amp:
                    v = v + amp['A1'] * wave(chk, 'sin', kw.get('f1', 100.), t)
            elif which == 'cos':
                v = amp['A'] * wave(chk, 'cos', amp['f0'], t)
            elif which in ('noise', 'sweep'):
                v = which
            out.append(('on', (env, v)))
    out += [('sil', None)] * nend
    return out


def wave(chk, f, freq, t):
    v = (Num(2 * math.pi) * freq * t)._fun(f)
    chk.assume(v <= 1)
    chk.assume(v >= -1)
    return v


def generate(s, which, kw, noise, offset, tier):
    def body(chk):
        draw = patched(chk)
        amp = dict(A=chk.inp('A'), f0=chk.inp('f0'))
        args = dict(kw, which=which)
        if which == 'sin' and kw.get('f1'):
            amp['A1'] = chk.inp('A1')
        args.update(amp)
        if which == 'sweep':
            args['f0'] = 1.
        off = chk.inp('off') if offset else Num(FR(0))
        if offset:
            chk.assume(off != 0)
            args['offset'] = off
        b = FR(0)
        if noise:
            b = FR(noise)
            args['bkgrd_noise'] = float(noise)
        given = dict(args)
        sig = signalgenerator(**args)
        chk.expect('args', all(given[k] is args[k] for k in given) and len(given) == len(args),
                   'parameters of the caller left unchanged')
        want = expected(which, args, chk, amp, draw)
        chk.expect('length', len(sig) == len(want), 'number of samples: %d instead of %d' % (len(sig), len(want)))
        if len(sig) != len(want):
            return
        if b:
            # rounding of constants: bounded amplitudes, and a small slack
            for v in amp:
                chk.assume(amp[v] <= 100)
                chk.assume(amp[v] >= -100)
            b = b + FR(1, 10**9)
        rels = Conj()
        for k, (kind, w) in enumerate(want):
            v = num._coerce(sig[k])
            if kind == 'sil':
                base = Num(FR(0))
            elif kind == 'off':
                base = off
            elif isinstance(w[1], str):
                base = None
                if w[1] == 'noise':
                    # within the envelope times the amplitude (for A >= 0)
                    chk.assume(amp['A'] >= 0)
                    d = v - off
                    lim = amp['A'] * (w[0] + FR(1, 10**9)) + b
                    rels.append(d <= lim)
                    rels.append(d >= -lim)
                    # the amplitude is attained by extreme draws: linear in the draw
                elif kw.get('ramp_on') is None and not b and k > 0:
                    # sweep: starts as a sine (phase -90 degrees)
                    chk.assume(amp['A'] > 0)
                    d = v - off
                    lim = amp['A'] * w[0] * (1 + 1e-9)
                    rels.append(d <= lim)
                    rels.append(d >= -lim)
            else:
                base = w[1] * w[0] + off
            if base is None:
                continue
            if not b:
                chk.eq('v%d' % k, v, base, 'sample %d (%s)' % (k, kind))
            else:
                d = v - base
                rels.append(d <= b)
                rels.append(d >= -b)
        rels.state(chk, 'bounds', 'silences, cycles and offset within the amplitude of the noise')
    num.prove_paths(s, body, max_paths=50)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, int)


class IntMod(metaclass=_IntMeta):
    """`int` on symbolic reals: floor for non negative values"""

    def __new__(cls, v=0, *a):
        if isinstance(v, Num) and v.const() is None:
            t = zt(v.n) if not num.isc(v.n) or not num.isc(v.d) else None
            q = zt(v.n) / zt(v.d)
            return Num(z3.ToReal(z3.If(q >= 0, z3.ToInt(q), -z3.ToInt(-q))))
        return int(v, *a) if a else int(float(v)) if isinstance(v, Num) else int(v)


def sizes(s, which, tier):
    """numbers of samples for all durations, rates and ratios"""
    syn.int = IntMod
    try:
        def body(chk):
            tsig, tdeb, tend, fs, cr, ar, dr = (chk.inp(v) for v in ('tsig', 'tdeb', 'tend', 'fs', 'cr', 'ar', 'dr'))
            for v in (tsig, tdeb, tend):
                chk.assume(v >= 0)
            chk.assume(fs > 0)
            for v in (cr, ar, dr):
                chk.assume(v >= 0)
                chk.assume(v <= 1)
            p = syn.build_parameters(which=which, tsig=tsig, tdeb=tdeb, tend=tend, fs=fs, cycle_ratio=cr,
                                     attack_ratio=ar, decay_ratio=dr)
            for k, t in (('nsig', tsig * fs), ('ndeb', tdeb * fs), ('nend', tend * fs), ('non', p['nsig'] * cr),
                         ('na', p['non'] * ar), ('nd', p['non'] * dr)):
                d = p[k] - t
                chk.rel(k + '_hi', d < 1, None, '%s below its duration + 1 sample' % k)
                chk.rel(k + '_lo', d > -1, None, '%s above its duration - 1 sample' % k)
                chk.rel(k + '_pos', p[k] >= 0, None, '%s is not negative' % k)
            chk.eq('cycle', p['non'] + p['noff'], p['nsig'], 'on and off samples make up the cycle')
            chk.rel('noff', p['noff'] >= 0, None, 'off samples')
        num.prove_paths(s, body)
    finally:
        del syn.int


def defaults(s, tier):
    p = syn.build_parameters()
    for k, v in dict(tsig=1., ncycles=1, tdeb=0, tend=0, fs=1000, A=1., f0=10., cycle_ratio=1., attack_ratio=0.,
                     decay_ratio=0., ramp_on=False, bkgrd_noise=0., offset=0.).items():
        s.expect('default_' + k, p[k] == v, 'documented default value of %s' % k)
    for name in ('zero', 'const', 'sin', 'cos', 'noise', 'step', 'sweep'):
        s.expect('name_' + name, name in syn.names, 'documented signal type')
    try:
        signalgenerator(which='sawtooth')
        s.expect('unknown', False, 'unknown type of signal accepted')
    except (NotImplementedError, NameError, ValueError):
        s.expect('unknown', True, '')


# -------------------------------------------------------------------- waves
def Trunc(chk):
    """`int` on a symbolic real: any value between 0 and it, at less than 1 from it (the truncation is
    one of them)"""
    n = [0]

    class Int(metaclass=_IntMeta):
        def __new__(cls, v=0, *a):
            if isinstance(v, Num) and v.const() is None:
                q = chk.inp('trunc%d' % n[0])
                n[0] += 1
                zq, zv = zt(q.n), zt(v.n) / zt(v.d)
                chk.assume(num.SymBool(z3.If(zv >= 0, z3.And(0 <= zq, zq <= zv, zq > zv - 1),
                                             z3.And(zv <= zq, zq <= 0, zq < zv + 1))))
                return q
            return int(v, *a) if a else int(float(v)) if isinstance(v, Num) else int(v)
    return Int


class Record:
    """stand-in for the wave file: records what it is given"""

    def __init__(self):
        self.frames, self.params, self.closed = [], None, False

    def setparams(self, p):
        self.params = tuple(p)

    def setnchannels(self, n):
        self.params = (n,) + tuple((self.params or (0, 0, 0))[1:])

    def setsampwidth(self, n):
        p = tuple(self.params or (0, 0, 0))
        self.params = (p[0], n) + p[2:]

    def setframerate(self, n):
        p = tuple(self.params or (0, 0, 0))
        self.params = p[:2] + (n,) + p[3:]

    def writeframes(self, f):
        self.frames += f if isinstance(f, list) else [f]

    writeframesraw = writeframes

    def close(self):
        self.closed = True


def sw(module, **kw):
    old = {k: module.__dict__.get(k) for k in kw}
    module.__dict__.update(kw)

    def undo():
        for k, v in old.items():
            if v is None:
                del module.__dict__[k]
            else:
                module.__dict__[k] = v
    return undo


def wav(s, n, mode, form, tier):
    def body(chk):
        x = [chk.inp('x%d' % k) for k in range(n)]
        rec, opened = Record(), []

        class WaveMod:
            @staticmethod
            def open(path, how):
                opened.append((path, how))
                return rec
        kw = {}
        if mode == 'number':
            kw['normalize'] = 2.
            lim = FR(2)
        elif mode == 'max':
            kw['normalize'] = True
            lim = None
        else:
            lim = FR(1)
        if lim is not None:
            for v in x:
                chk.assume(v <= lim)
                chk.assume(v >= -lim)
        arr = numpy.empty(n, dtype=object)
        arr[:] = x
        sig = dict(array=arr, list=list(x), gen=(v for v in x))[form]
        undo = sw(waves, wave=WaveMod, pack=lambda f, *v: [(f, i) for i in v], int=Trunc(chk), print=lambda *a: None)
        try:
            waves.wavwrite(sig, 8000, 'file', **kw)
        finally:
            undo()
        chk.expect('path', opened == [('file.wav', 'w')] or opened == [('file.wav', 'wb')], 'file written: %s' % opened)
        chk.expect('params', rec.params is not None and tuple(rec.params[:3]) == (1, 2, 8000),
                   'one channel of 16 bits at the rate given: %s' % (rec.params,))
        chk.expect('closed', rec.closed, 'the file is closed')
        chk.expect('frames', len(rec.frames) == n and all(f[0].lstrip('<=@') == 'h' for f in rec.frames),
                   'one 16 bits frame per sample')
        if len(rec.frames) != n:
            return
        if mode == 'max':
            scale = Num(FR(0))
            for v in x:
                a = abs(v)
                if a > scale:
                    scale = a
            if scale == 0:
                scale = Num(FR(1))
        else:
            scale = Num(lim)
        vals = [num._coerce(f[1]) for f in rec.frames]
        rng, acc = Conj(), Conj()
        for k, v in enumerate(vals):
            rng.append(v <= 32767)
            rng.append(v >= -32768)
        rng.state(chk, 'range', 'samples fit in 16 bits')
        back = numpy.empty(n, dtype=object)
        back[:] = vals

        class Data(numpy.ndarray):
            pass

        class WF:
            @staticmethod
            def read(path):
                return 8000, Arr(back)
        undo = sw(waves, wavfile=WF, print=lambda *a: None)
        try:
            fs, got = waves.wavread('file.wav')
        finally:
            undo()
        chk.expect('fs', fs == 8000 and len(got) == n, 'rate and length read back')
        for k in range(n):
            d = num._coerce(got[k]) * scale - x[k]
            q = scale * FR(1, 32767)
            acc.append(d <= q)
            acc.append(d >= -q)
        acc.state(chk, 'back', 'values read back within one quantum')
    num.prove_paths(s, body, max_paths=400)


class Arr:
    """integer array returned by the reader; astype gives a mutable array of the same values"""

    def __init__(self, a):
        self.a = a

    def astype(self, t):
        return self.a.copy()

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return iter(self.a)

    def __getitem__(self, i):
        return self.a[i]

    def __truediv__(self, o):
        return self.a / o


def fades(s, tier):
    def body(chk):
        n, fs, tf = 6, 4, .5
        x = [chk.inp('x%d' % k) for k in range(n)]
        for v in x:
            chk.assume(v <= 1)
            chk.assume(v >= -1)
        rec = Record()

        class WaveMod:
            @staticmethod
            def open(path, how):
                return rec
        undo = sw(waves, wave=WaveMod, pack=lambda f, *v: [(f, i) for i in v], int=Trunc(chk), print=lambda *a: None)
        try:
            waves.wavwrite(list(x), fs, 'f.wav', timefades=tf)
        finally:
            undo()
        vals = [num._coerce(f[1]) for f in rec.frames]
        chk.expect('n', len(vals) == n, 'as many samples')
        mid = Conj()
        chk.eq('start', vals[0], 0, 'fade in starts from zero')
        chk.eq('end', vals[-1], 0, 'fade out ends at zero')
        for k in range(2, 4):
            d = vals[k] / 32767 - x[k]
            mid.append(d <= FR(1, 32767))
            mid.append(d >= -FR(1, 32767))
        mid.state(chk, 'mid', 'signal between the fades')
        for k in (1, 4):
            chk.rel('in%d' % k, vals[k] * vals[k] <= (x[k] * 32767) * (x[k] * 32767), None, 'fades attenuate')
    num.prove_paths(s, body, max_paths=200)


def filtering(s, fc, tbw, tier):
    """lowpass is linear, leaves constants unchanged away from the ends, and is symmetric"""
    b = tbw * fc
    N = int(math.ceil(4 / b))
    N += 1 - N % 2
    n = N + 4

    def body(chk):
        a = chk.inp('a')
        c = chk.inp('c')
        x = numpy.empty(n, dtype=object)
        x[:] = [a] * n
        y = processing.lowpass(x, fc, tbw)
        chk.expect('n', len(y) == n, 'length of the filtered signal')
        for k in range(N // 2, n - N // 2):
            chk.eq('gain%d' % k, y[k], a, 'unit gain at frequency 0')
        z = numpy.empty(n, dtype=object)
        z[:] = [Num(FR(0))] * n
        z[n // 2] = c
        h = processing.lowpass(z, fc, tbw)
        for k in range(1, min(n // 2, n - 1 - n // 2)):
            chk.eq('sym%d' % k, h[n // 2 + k], h[n // 2 - k], 'no phase distortion')
    num.prove_paths(s, body)


FAMILY = [
    dict(fs=8, tsig=.5),
    dict(fs=8, tsig=.5, ncycles=3),
    dict(fs=4, tsig=1., ncycles=2, tdeb=.5, tend=.75),
    dict(fs=8, tsig=.5, ncycles=2, cycle_ratio=.5, tend=.125),
    dict(fs=8, tsig=.5, ncycles=2, cycle_ratio=.75, attack_ratio=.5, tdeb=.25),
    dict(fs=16, tsig=.5, cycle_ratio=.75, decay_ratio=.5, attack_ratio=.5),
    dict(fs=8, tsig=.5, ncycles=3, ramp_on=True),
    dict(fs=4, tsig=1., ncycles=2, ramp_on=True, cycle_ratio=.5, decay_ratio=.5, tdeb=.25),
]


def scenarios(tier):
    out = [('sizes_' + w, sizes, dict(which=w, tier=tier)) for w in ('sin', 'step')]
    out += [('defaults', defaults, dict(tier=tier))]
    for i, kw in enumerate(FAMILY):
        for w in ('zero', 'const', 'sin', 'cos', 'noise', 'step', 'sweep'):
            for j, (nz, off) in enumerate(((0, False), (0, True), (.25, False), (.5, True))):
                if tier == 'quick' and ((i + j) % 2 if w == 'sin' else (i + j + len(w)) % 3):
                    continue
                if w == 'sweep' and kw.get('ramp_on'):
                    continue
                k = dict(kw)
                if w == 'sin' and j % 2:
                    k['f1'] = 3.
                if w == 'sweep':
                    k['f1'] = 2.
                out.append(('gen_%s_%d_%d' % (w, i, j), generate, dict(which=w, kw=k, noise=nz, offset=off, tier=tier)))
    for n, mode, form in [(0, 'none', 'list'), (2, 'none', 'array'), (3, 'none', 'gen'), (2, 'number', 'list'),
                          (2, 'max', 'array'), (1, 'max', 'list'), (2, 'max', 'gen')] + (
            [(3, 'max', 'list'), (4, 'none', 'list')] if tier == 'thorough' else []):
        out.append(('wav_%d_%s_%s' % (n, mode, form), wav, dict(n=n, mode=mode, form=form, tier=tier)))
    out += [('fades', fades, dict(tier=tier)),
            ('lowpass_1', filtering, dict(fc=.4, tbw=.5, tier=tier)),
            ('lowpass_2', filtering, dict(fc=.25, tbw=.5, tier=tier))]
    return out
