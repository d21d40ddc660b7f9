"""C09 Waterlevel deconvolution is the documented spectral division"""
import cmath
import math
from rf import RFStream, deconvolve
from rf.deconvolve import deconv_waterlevel
from symrf import engine as E
from symrf.runner import Case
from checks.util import T0, trace
from checks.C07 import taper

SRC = [[1., -.5, .25, 2.], [0., 3.], [1., 1., 0., 0.], [.5, 2., -1.],
       [0., 1., 4., -2., .5], [-2., 0., 0., 1., .5, .25]]


def unit(k, n):
    """exp(2 pi i k / n)"""
    k = k % n
    return {0: 1., n: 1j, 2 * n: -1., 3 * n: -1j}.get(
        4 * k, cmath.exp(2j * math.pi * k / n))


def cmul(a, b):
    """product of pairs of real and imaginary parts"""
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def dft(x, n):
    x = list(x)[:n]
    out = []
    for k in range(n):
        re = im = 0.
        for j, v in enumerate(x):
            u = complex(unit(-k * j, n))
            re = re + v * u.real
            im = im + v * u.imag
        out.append((re, im))
    return out


def freq(n, dt):
    return [(k if 2 * k < n else k - n) / (n * dt) for k in range(n)]


def fast_len(n):
    """next number without prime factors above 5"""
    while True:
        m = n
        for p in (2, 3, 5):
            while m % p == 0:
                m //= p
        if m == 1:
            return n
        n += 1


def division(r, s, n, dt, wlevel, gauss, tshift, length, shift=None):
    """real part of the documented formula"""
    R, S = dft(r, n), dft(s, n)
    P = [a * a + b * b for a, b in S]
    top = P[0]
    for v in P[1:]:
        if v > top:
            top = v
    level = top * wlevel
    out = []
    for k, f in enumerate(freq(n, dt)):
        d = level if level > P[k] else P[k]
        z = cmul(R[k], (S[k][0], -1. * S[k][1]))
        if shift is None:
            u = cmath.exp(-2j * math.pi * f * tshift)
            u = (u.real, u.imag)
        else:
            u = shift(k if 2 * k < n else k - n)
        z = cmul(z, u)
        g = 1. if gauss is None else math.exp(-.5 * (f / gauss) ** 2)
        out.append((z[0] * (g / n) / d, z[1] * (g / n) / d))
    res = []
    for j in range(length):
        v = 0.
        for k in range(n):
            u = complex(unit(k * j, n))
            v = v + out[k][0] * u.real - out[k][1] * u.imag
        res.append(v)
    return res


def real(a):
    return [v.real for v in a]


PARAMS = [  # sampling rate, waterlevel, gauss, time shift
    (1., None, 0, None), (4., None, .4, 0.), (1., .3, None, 1.3),
    (4., 1., 3., -2.), (2., 0., None, 0.), (4., .3, .4, 1.3),
    (1., 0., .1, -1.)]


def params(ctx):
    sr, w, g, t = ctx.choice('params', PARAMS)
    kw = {'sampling_rate': sr}
    if w is not None:
        kw['waterlevel'] = w
    if g != 0:
        kw['gauss'] = g
    if t is not None:
        kw['tshift'] = t
    return kw


def formula(N, srcs, lengths, nffts, nrsp=2):
    """any response"""
    def fn(ctx):
        s = ctx.choice('src', srcs)
        length = ctx.choice('length', lengths)
        nfft = ctx.choice('nfft', nffts)
        kw = params(ctx)
        L = N if length is None else length
        n = fast_len(L) if nfft is None else nfft
        if n < L or n < N or n < len(s):
            ctx.assume(False)
        if kw.get('waterlevel') == 0. and \
                min(abs(complex(*v)) for v in dft(s, n)) < 1e-6:
            ctx.assume(False)
        rsp = [ctx.array('r%d_' % i, N) for i in range(nrsp)]
        r = [list(a) for a in rsp]
        kw2 = dict(kw)
        if length is not None:
            kw2['length'] = length
        if nfft is not None:
            kw2['nfft'] = nfft
        out = deconv_waterlevel(rsp, ctx.arr(s), kw2.pop('sampling_rate'),
                                normalize=None, **kw2)
        ctx.same('results', len(out), nrsp)
        for i in range(nrsp):
            ctx.arr_eq('result %d' % i, real(out[i]), division(
                r[i], s, n, 1. / kw['sampling_rate'],
                kw.get('waterlevel', .05), kw.get('gauss', .5),
                kw.get('tshift', 10.), L), 1e-6)
            ctx.arr_eq('response unchanged', rsp[i], r[i])
    return fn


def any_source(N, lines, waters):
    """source with one parameter"""
    def fn(ctx):
        s0, s1 = ctx.choice('line', lines)
        w = ctx.choice('waterlevel', waters)
        a = ctx.real('a', -3, 3)
        ctx.fork_max()
        s = [x + a * y for x, y in zip(s0, s1)]
        n = fast_len(N)
        r = [1., -2., .5, 3., .25, 1.5, -1., .5][:N]
        S = dft(s, n)
        top = [x * x + y * y for x, y in S]
        ctx.assume(ctx.any_of([v > 1e-3 for v in top]))
        if w == 0.:
            for v in top:
                ctx.assume(v > 1e-3)
        out = deconv_waterlevel(ctx.arr(r), ctx.arr(s), 2., w, tshift=1.,
                                normalize=None)
        ctx.arr_eq('result', real(out), division(
            r, s, n, .5, w, .5, 1., N), 1e-5)
    return fn


def any_level(N, srcs):
    """any waterlevel"""
    def fn(ctx):
        s = ctx.choice('src', srcs)
        w = ctx.real('waterlevel', .01, 2)
        n = fast_len(N)
        r = [1., -2., .5, 3., .25, 1.5, -1., .5][:N]
        out = deconv_waterlevel(ctx.arr(r), ctx.arr(s), 2., w, tshift=1.,
                                normalize=None)
        ctx.arr_eq('result', real(out), division(
            r, s, n, .5, w, .5, 1., N), 1e-6)
    return fn


def any_shift(N, srcs):
    """any time shift of up to the length of the transform"""
    def fn(ctx):
        s = ctx.choice('src', srcs)
        n = fast_len(N)
        sr = ctx.choice('sr', [1., 4.])
        theta = ctx.angle('theta', -360, 360)
        tshift = theta * (n / sr / 360.)
        r = [1., -2., .5, 3., .25, 1.5, -1., .5][:N]

        def shift(k):
            x = theta * (math.pi / 180)
            if not ctx.sym:
                return math.cos(k * x), -math.sin(k * x)
            if k == 0:
                return 1., 0.
            c = E.s_cis(x * float(abs(k)))
            return c.real, c.imag * (-1. if k > 0 else 1.)
        out = deconv_waterlevel(ctx.arr(r), ctx.arr(s), sr, .1,
                                tshift=tshift, normalize=None)
        ctx.arr_eq('result', real(out), division(
            r, s, n, 1. / sr, .1, .5, 0, N, shift), 1e-6)
    return fn


def normalized(N, srcs):
    """maximum of selected trace is one, common factor"""
    def fn(ctx):
        s = ctx.choice('src', srcs)
        num = ctx.choice('number', [1, 2, 3])
        sel = ctx.choice('normalize', ['default', 0, 1, 2, 'src'])
        if isinstance(sel, int) and sel >= num:
            ctx.assume(False)
        gains = [ctx.real('g%d' % i, .5, 4) for i in range(num)]
        base = [[1., -2., .5, 3.], [0., 1., -1., .25], [-2., .5, 4., 1.]]
        r = [[v * g for v in (base[i] * 2)[:N]] for i, g in enumerate(gains)]
        kw = {} if sel == 'default' else {'normalize': sel}
        ref = 0 if sel == 'default' else sel
        opt = dict(waterlevel=.1, gauss=ctx.choice('gauss', [None, .5]),
                   tshift=1.)
        out = deconv_waterlevel([ctx.arr(x) for x in r], ctx.arr(s), 2.,
                                **dict(opt, **kw))
        plain = deconv_waterlevel([ctx.arr(x) for x in r], ctx.arr(s), 2.,
                                  normalize=None, **opt)
        if ref == 'src':
            d = division(s, s, fast_len(N), .5, .1, opt['gauss'], 1., N)
            f = 1. / max(d)
        else:
            # gain of the trace cancels
            n = fast_len(N)
            d = division((base[ref] * 2)[:N], s, n, .5, .1, opt['gauss'], 1.,
                         N)
            f = 1. / (max(d) * gains[ref])
            if max(d) < 1e-3:
                ctx.assume(False)
            top = real(out[ref])
            ctx.eq('maximum', top[d.index(max(d))], 1., 1e-6)
            for v in top:
                ctx.le('not above maximum', v, 1., 1e-6)
        for x, y in zip(out, plain):
            ctx.arr_eq('common factor', real(x), [v * f for v in real(y)],
                       1e-5)
    return fn


def stream(n, srs, wins, onsets, srcs=None):
    """waterlevel deconvolution of a stream"""
    def fn(ctx):
        sr = ctx.choice('sr', srs)
        win = ctx.choice('win', wins)
        k = ctx.choice('onset', onsets)
        L = [1., -.5, .25, 2., 4., -1., .5, .75, .125, 1., 2., 1.][:n]
        q = ctx.array('Q', n)
        r = list(q)
        trs = [trace(ctx.arr(L), 'N.S..BHL', T0, sr, onset=T0 + k / sr),
               trace(q, 'N.S..BHQ', T0, sr, onset=T0 + k / sr)]
        i1 = k + int(math.floor(win[0] * sr + .5))
        i2 = k + int(math.floor(win[1] * sr + .5))
        s = taper([L[i] if 0 <= i < n else 0.
                   for i in range(i1, i2 + 1)], win[2], sr)
        num = fast_len(n)
        if len(s) > num or sum(v * v for v in s) < 1e-2:
            ctx.assume(False)
        method = ctx.choice('name', ['waterlevel', 'freq'])
        out = deconvolve.deconvolve(RFStream(trs), method, winsrc=win,
                                    waterlevel=.2, gauss=None,
                                    normalize=None)
        ctx.same('traces', [tr.id for tr in out], ['N.S..BHL', 'N.S..BHQ'])
        for tr, d in zip(out, (L, r)):
            # delay time zero at the onset
            ctx.arr_eq('result', tr.data, division(
                d, s, num, 1. / sr, .2, None, (k - i1) / sr, n), 1e-6)
    return fn


LINES = [((1., 2., 0., 0.), (0., 1., 0., 0.)),
         ((1., -1., 2., .5), (1., 1., 1., 1.)),
         ((0., 0., 0., 0.), (1., .5, 0., 0.)),
         ((0., 1., 0.), (1., 0., -1.))]


ASSUMPTIONS = [
    'real arithmetic instead of floating point (tolerance 1e-6 of the '
    'scale of the inputs)',
    'FFT is replaced by the exact discrete Fourier transform of at most 8 '
    'samples']


def cases(tier):
    c = [Case('formula', formula(4, SRC[:5], [None, 3, 6], [None, 8]),
              '2 responses of 4 samples, 5 sources, results of 3 to 6 '
              'samples'),
         Case('formula 5', formula(5, SRC[3:5], [None], [None, 6], 1),
              'response of 5 samples'),
         Case('any source', any_source(4, LINES[1:3], [.05]),
              '4 samples, 2 families of sources with one parameter'),
         Case('any waterlevel', any_level(4, SRC[:4]),
              '4 sources of up to 4 samples, waterlevel 0.01-2'),
         Case('any time shift', any_shift(4, SRC[:3]),
              '3 sources, shifts up to the length of the transform'),
         Case('normalization', normalized(4, SRC[:2]),
              '1 to 3 responses with any gain'),
         Case('stream', stream(6, [1., 2.], [(-2, 3, 0), (-1, 2, 1),
                                             (0, 2, 0), (1, 2, 0)],
                               [2, 4]), '6 samples at 1 and 2 Hz, 4 windows')]
    if tier == 'thorough':
        c += [Case('formula long', formula(
                  7, SRC, [None, 5, 9], [None, 10, 16], 1), time=600),
              Case('any source 4', any_source(4, LINES, [.05, .5]), time=300),
              Case('any source long', any_source(
                  6, [(a + (0., 1.), b + (.5, 0.)) for a, b in LINES[:3]],
                  [0., .05, .5, 1.]), time=600),
              Case('any waterlevel long', any_level(8, SRC), time=300),
              Case('any time shift long', any_shift(6, SRC), time=600),
              Case('normalization long', normalized(6, SRC), time=300),
              Case('stream long', stream(
                  10, [1., 2.], [(-2, 3, 0), (-1, 2, 1), (0, 2, 0),
                                 (1, 2, 0), (-4, 4, 2), (-8, -2, 1)],
                  [0, 2, 4, 9]), time=300)]
    return c
