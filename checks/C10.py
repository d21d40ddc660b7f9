"""C10 Iterative deconvolution never increases the misfit"""
import cmath
import math
from rf import RFStream, deconvolve
from rf.deconvolve import deconv_iterative
from symrf.runner import Case
from checks.util import T0, trace
from checks.C09 import unit, freq, fast_len

SRC = [(2., 1., -.5), (1.,), (0., 1., 3., -1.), (-1., .5), (.5, 0., -2., 1.)]
# responses with one parameter
LINES = [((1., 2., -1., .5), (0., 1., 0., -1.)),
         ((.25, 0., 3., -2.), (1., 1., 1., 1.)),
         ((0., -1., .5, 1.), (2., 0., 0., 1.)),
         ((4., 1., -1., 0.), (-1., .25, .5, .125))]


def kernel(n, dt, gauss, tshift=None):
    """impulse response of Gaussian filter and time shift"""
    out = []
    for j in range(n):
        v = 0.
        for k, f in enumerate(freq(n, dt)):
            z = complex(unit(k * j, n)) * math.exp(-.5 * (f / gauss) ** 2)
            if tshift is not None:
                z *= cmath.exp(-2j * math.pi * f * tshift)
            v += z.real / n
        out.append(v)
    return out


def conv(h, x, n):
    """circular convolution"""
    x = list(x)[:n]
    return [sum([x[i] * h[(j - i) % n] for i in range(len(x))], 0.)
            for j in range(n)]


def pursuit(ctx, r, s, sr, tshift, gauss, itmax, minderr, mute):
    """spike by spike deconvolution; r or s with symbolic values"""
    N = len(r)
    n = fast_len(2 * N)
    dt = 1. / sr
    h = kernel(n, dt, gauss)
    rf, sf = conv(h, r, n), conv(h, s, n)
    P = sum([v * v for v in sf], 0.)
    R = sum([v * v for v in rf], 0.)
    ctx.assume(P > 1e-3)
    ctx.assume(R > 1e-3)
    allowed = list(range(N)) + ([] if mute else
                                list(range(n - int(tshift * sr), n)))
    spikes = [0.] * n
    rem = rf
    last = 1.
    rms = []
    while len(rms) < itmax:
        c = dict((lag, sum([rem[(i + lag) % n] * sf[i] for i in range(n)],
                           0.)) for lag in allowed)
        best = allowed[0]
        for lag in allowed[1:]:
            if abs(c[lag]) > abs(c[best]):
                best = lag
        for lag in allowed:
            if lag != best:
                # no ties
                ctx.assume(abs(c[best]) - abs(c[lag]) > 1e-3)
        a = c[best] / P
        spikes[best] = spikes[best] + a
        rem = [rem[j] - a * sf[(j - best) % n] for j in range(n)]
        m = sum([v * v for v in rem], 0.) / R
        rms.append(m)
        change = 100 * abs(last - m)
        last = m
        if len(rms) == itmax:
            break
        if change > minderr:
            ctx.assume(change > minderr + 1e-3)
        else:
            ctx.assume(change < minderr - .1 * min(minderr, .01))
            break
    out = conv(kernel(n, dt, gauss, tshift), [v * sr for v in spikes], n)[:N]
    return out, len(rms), rms


def run(ctx, r, s, **kw):
    opt = dict(gauss=.5, itmax=400, minderr=.001, mute_shift=False)
    opt.update(kw)
    sr, tshift = opt.pop('sampling_rate'), opt.pop('tshift')
    return pursuit(ctx, r, s, sr, tshift, opt['gauss'], opt['itmax'],
                   opt['minderr'], opt['mute_shift'])


PARAMS = [dict(sampling_rate=1., tshift=1., minderr=.5, gauss=1.),
          dict(sampling_rate=2., tshift=1., mute_shift=True, gauss=3.,
               minderr=20.),
          dict(sampling_rate=1., tshift=0., gauss=2., minderr=4.),
          dict(sampling_rate=2., tshift=.75, gauss=1.5)]


def spikes(N, lines, srcs, itmaxs, params, nrsp=1):
    """any response of a line"""
    def fn(ctx):
        s = ctx.choice('src', srcs)[:N]
        kw = dict(ctx.choice('params', params))
        kw['itmax'] = ctx.choice('itmax', itmaxs)
        rsp = []
        for i in range(nrsp):
            l0, l1 = ctx.choice('line%d' % i, lines)
            a = ctx.real('a%d' % i, -3, 3)
            ctx.line(a)
            rsp.append([x + y * a for x, y in zip(l0[:N], l1[:N])])
        want = [run(ctx, r, s, **kw) for r in rsp]
        out, it, rms = deconv_iterative(
            [ctx.arr(r) for r in rsp], ctx.arr(s), normalize=None, **kw)
        for i in range(nrsp):
            ctx.same('iterations %d' % i, int(it[i]), want[i][1])
            ctx.arr_eq('misfit %d' % i, list(rms[i])[:want[i][1]],
                       want[i][2], 1e-5)
            ctx.arr_eq('result %d' % i, out[i], want[i][0], 1e-5)
            m = [1.] + list(rms[i])[:it[i]]
            for k in range(1, len(m)):
                ctx.le('misfit does not increase', m[k], m[k - 1], 1e-9)
    return fn


def any_response(N, srcs):
    """first spike for any response"""
    def fn(ctx):
        s = ctx.choice('src', srcs)[:N]
        kw = dict(ctx.choice('params', PARAMS), itmax=1)
        r = ctx.array('r', N)
        rf = list(r)
        want = run(ctx, rf, s, **kw)
        out, it, rms = deconv_iterative([r], ctx.arr(s), normalize=None, **kw)
        ctx.same('iterations', int(it[0]), 1)
        ctx.arr_eq('result', out[0], want[0], 1e-5)
        ctx.arr_eq('response unchanged', r, rf)
    return fn


def any_source(N, lines, itmaxs):
    """any source of a line"""
    def fn(ctx):
        l0, l1 = ctx.choice('line', lines)
        a = ctx.real('a', -2, 2)
        ctx.line(a)
        s = [x + y * a for x, y in zip(l0[:N], l1[:N])]
        r = [1., -2., .5, 3., .25][:N]
        kw = dict(PARAMS[2], itmax=ctx.choice('itmax', itmaxs))
        want = run(ctx, r, s, **kw)
        out, it, rms = deconv_iterative([ctx.arr(r)], ctx.arr(s),
                                        normalize=None, **kw)
        ctx.same('iterations', int(it[0]), want[1])
        ctx.arr_eq('misfit', list(rms[0])[:want[1]], want[2], 1e-5)
        ctx.arr_eq('result', out[0], want[0], 1e-5)
    return fn


def delta(N, srcs):
    """scaled and delayed source is found in one iteration"""
    def fn(ctx):
        s = ctx.choice('src', srcs)
        gain = ctx.real('gain', -5, 5)
        ctx.assume(ctx.any_of([gain > .1, gain < -.1]))
        kw = dict(ctx.choice('params', PARAMS))
        d = ctx.choice('delay', list(range(-2, N)))
        sr = kw['sampling_rate']
        # source stays within the window
        first = min(i for i, v in enumerate(s) if v)
        if first + d < 0 or len(s) + d > N:
            ctx.assume(False)
        if d < 0 and (-d > kw['tshift'] * sr or kw.get('mute_shift')):
            ctx.assume(False)
        r = [0.] * N
        for i, v in enumerate(s):
            if v:
                r[i + d] = v * gain
        out, it, rms = deconv_iterative(
            [ctx.arr(r)], ctx.arr(s), normalize=None,
            itmax=ctx.choice('itmax', [1, 3]), **kw)
        ctx.eq('misfit', rms[0][0], 0., 1e-6)
        n = fast_len(2 * N)
        h = kernel(n, 1. / sr, kw['gauss'], kw['tshift'])
        ctx.arr_eq('result', out[0], [
            gain * (sr * h[(j - d) % n]) for j in range(N)], 1e-5)
    return fn


def excluded(N, srcs):
    """no spike at delay times before the trace or which are muted"""
    def fn(ctx):
        s = ctx.choice('src', srcs)
        a = ctx.real('gain', -5, 5)
        ctx.line(a)
        ctx.assume(ctx.any_of([a > .1, a < -.1]))
        kw = dict(ctx.choice('params', PARAMS), itmax=1)
        first = min(i for i, v in enumerate(s) if v)
        d = ctx.choice('delay', [-1, -2])
        if -d > first or not (kw.get('mute_shift') or
                              -d > kw['tshift'] * kw['sampling_rate']):
            ctx.assume(False)
        r = [0.] * N
        for i, v in enumerate(s):
            if v:
                r[i + d] = v * a
        want = run(ctx, r, s, **kw)
        out, it, rms = deconv_iterative([ctx.arr(r)], ctx.arr(s),
                                        normalize=None, **kw)
        ctx.arr_eq('misfit', list(rms[0])[:1], want[2], 1e-5)
        ctx.arr_eq('result', out[0], want[0], 1e-5)
    return fn


def silent(ctx):
    """nothing to explain"""
    kw = dict(ctx.choice('params', PARAMS))
    g = ctx.real('a', 1, 2)
    out, it, rms = deconv_iterative(
        [ctx.arr([0.] * 4), ctx.arr([g, 0., 0., 0.])], ctx.arr(SRC[0]),
        normalize=None, itmax=2, **kw)
    ctx.arr_eq('result', out[0], [0.] * 4)
    ctx.true('iterations', it[0] <= 2)
    ctx.true('iterations of other', 1 <= it[1] <= 2)


def stream(n, lines, wins):
    """iterative deconvolution of a stream"""
    def fn(ctx):
        win = ctx.choice('win', wins)
        itmax = ctx.choice('itmax', [1, 2])
        sr = ctx.choice('sr', [1., 2.])
        k = 1
        l0, l1 = ctx.choice('line', lines)
        a = ctx.real('a', -3, 3)
        ctx.line(a)
        L = [0., 2., 1., -.5][:n]
        q = [x + y * a for x, y in zip(l0[:n], l1[:n])]
        trs = [trace(ctx.arr(L), 'N.S..BHL', T0, sr, onset=T0 + k / sr),
               trace(ctx.arr(q), 'N.S..BHQ', T0, sr, onset=T0 + k / sr)]
        if win == 'P':
            i1, i2 = 0, n - 1
        else:
            i1, i2 = [k + int(round(w * sr)) for w in win[:2]]
        s = [L[i] if 0 <= i < n else 0. for i in range(i1, i2 + 1)]
        kw = dict(gauss=1.5, itmax=itmax, minderr=.5)
        want = [run(ctx, d, s, sampling_rate=sr, tshift=(k - i1) / sr, **kw)
                for d in (L, q)]
        out = deconvolve.deconvolve(RFStream(trs), 'iterative', winsrc=win,
                                    normalize=None, **kw)
        ctx.same('traces', [tr.id for tr in out], ['N.S..BHL', 'N.S..BHQ'])
        for tr, w in zip(out, want):
            ctx.arr_eq('result', tr.data, w[0], 1e-5)
            ctx.same('iterations', int(tr.stats.iterations), w[1])
    return fn


ASSUMPTIONS = [
    'real arithmetic instead of floating point (tolerance 1e-6 of the '
    'scale of the inputs)',
    'data on lines d0 + t d1, FFT replaced by the exact transform']


def cases(tier):
    c = [Case('spikes', spikes(4, LINES[:2], SRC[:3], [3], PARAMS[:2]),
              '4 samples, 3 sources, up to 3 spikes'),
         Case('spikes of two', spikes(3, LINES[2:3], SRC[3:4], [2],
                                      PARAMS[2:3], 2),
              '2 responses of 3 samples, up to 2 spikes'),
         Case('any response', any_response(2, SRC[:2]), '2 samples, 1 spike'),
         Case('any source', any_source(3, LINES[:2], [1, 2]),
              '3 samples, up to 2 spikes'),
         Case('delayed source', delta(5, SRC), '5 samples, 5 sources'),
         Case('excluded delay', excluded(4, [SRC[3][1:], (0., 0., 2., -1.),
                                             (0., 0., 1., 3.), SRC[2]]),
              '4 samples, 4 sources'),
         Case('no response', silent, '4 samples'),
         Case('stream', stream(4, LINES[:2], ['P', (0, 1, 0)]), '4 samples')]
    if tier == 'thorough':
        c += [Case('spikes long', spikes(5, [
                  (a + (1.5,), b + (.5,)) for a, b in LINES], SRC, [2, 5],
                  PARAMS), time=600),
              Case('any response long', any_response(5, SRC), time=600),
              Case('any source long', any_source(4, LINES, [1, 2, 3]),
                   time=600),
              Case('delayed source long', delta(8, SRC), time=300)]
    return c
