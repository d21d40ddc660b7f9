"""C11 Multitaper deconvolution is linear and in time"""
import math
import multitaper
import numpy as np
from rf import RFStream, deconvolve
from rf.deconvolve import deconv_multitaper
from symrf.runner import Case
from checks.util import T0, trace
from checks.C07 import wavelet
from checks.C09 import unit, dft, freq

# compile functions before numpy and math are modelled
multitaper.MTSpec(np.arange(6), nw=2.5, kspec=3)
_TAPERS = {}


def tapers(n, tband, K):
    """Slepian tapers and their eigenvalues"""
    key = n, tband, K
    if key not in _TAPERS:
        s = multitaper.MTSpec(np.arange(n), nw=tband, kspec=K)
        _TAPERS[key] = ([[float(v) for v in s.vn[:, k]] for k in range(K)],
                        [float(s.lamb[k]) for k in range(K)])
    return _TAPERS[key]


def detrended(x):
    """values without mean and linear trend"""
    n = len(x)
    m = sum(x, 0.) / n
    t = [i - (n - 1) / 2. for i in range(n)]
    tt = sum(v * v for v in t)
    b = sum([v * w for v, w in zip(x, t)], 0.) / tt
    return [v - m - w * b for v, w in zip(x, t)]


def estimate(x, n, tap, olap, num, inside):
    """spectrum of detrended and tapered values of length n"""
    ntap = len(tap)
    w = [0.] * n
    for j in range(num):
        js = int(j * ntap * (1 - olap) + 1e-9)
        if inside and js + ntap >= n:
            continue
        for i in range(ntap):
            w[js + i] += tap[i]
    d = detrended(x)
    return dft([(w[i] * d[i] if i < len(d) else 0.) for i in range(n)], n)


def cross(r, s, nse, sampling_rate, tshift, gauss, K, tband, T, olap):
    """multitaper cross correlation receiver function"""
    sr = sampling_rate
    n = len(r)
    ntap = int(round(T * sr))
    tap, lamb = tapers(ntap, tband, K)
    ns, nn = (int(len(x) / ntap / (1 - olap) + 1e-9) for x in (s, nse))
    nr = int(n / ntap / (1 - olap) + 1e-9) - 1
    num = [(0., 0.)] * n
    den = [0.] * n
    for k in range(K):
        S = estimate(s, n, tap[k], olap, ns, False)
        D = estimate(r, n, tap[k], olap, nr, True)
        N = estimate(nse, n, tap[k], olap, nn, True)
        fs, fd, fn = len(s) / (ns * n), 1. / nr, len(s) / (nn * n)
        for i in range(n):
            (a, b), (c, d) = S[i], D[i]
            num[i] = (num[i][0] + (a * c + b * d) * (fs * fd),
                      num[i][1] + (a * d - b * c) * (fs * fd))
            den[i] = den[i] + (a * a + b * b) * fs ** 2 + (
                N[i][0] * N[i][0] + N[i][1] * N[i][1]) * (fn ** 2 / lamb[k])
    out = [0.] * n
    for i, f in enumerate(freq(n, 1. / sr)):
        g = 1. if gauss is None else math.exp(-.5 * (f / gauss) ** 2)
        re, im = num[i][0] * (g / n) / den[i], num[i][1] * (g / n) / den[i]
        for j in range(n):
            x = 2 * math.pi * f * (j / sr + tshift)
            out[j] = out[j] + re * math.cos(x) - im * math.sin(x)
    return out


BASE = [2., 1., -.5, 3., .25, -1., 0., 1.5, -2., .5, 4., -.75, 1., .125, -3.]
NOISE = [.5, -.25, .125, 1., -.5, .75, -.125, .25, .5, -1., .25, -.375]
# T, sampling rate, K, tband, olap, gauss, tshift
PARAMS = [(4., 1., 2, 1.5, .5, .5, -1.), (4., 1., 2, 1.5, .75, None, 0.),
          (2., 2., 2, 1.5, .5, 1., -.5), (6., 1., 3, 2.5, .5, .3, -2.),
          (4., 1., 2, 1.5, .5, 2., -1.5)]


def keywords(p):
    T, sr, K, tband, olap, gauss, tshift = p
    return dict(sampling_rate=sr, tshift=tshift, gauss=gauss, K=K,
                tband=tband, T=T, olap=olap)


def noise(i, n, gain=1.):
    return [gain * v for v in (NOISE * 3)[2 * i:2 * i + n]]


def source(i, n):
    return (BASE * 2)[i:i + n]


def responses(n, nums, params, nsrc=4, nn=8, lens=False):
    """any response, fixed source and noise"""
    def fn(ctx):
        num = ctx.choice('number', nums)
        kw = keywords(ctx.choice('params', params))
        s = source(ctx.choice('src', [0, 2]), nsrc)
        # noise windows of different lengths are possible
        nse = [noise(i, nn) for i in range(num)] if not lens else [
            noise(i, nn + ctx.choice('length %d' % i, [0, 4])
                  - (i and 2)) for i in range(num)]
        rsp = [ctx.array('r%d_' % i, n) for i in range(num)]
        r = [list(a) for a in rsp]
        out = deconv_multitaper(rsp, ctx.arr(s), [ctx.arr(x) for x in nse],
                                normalize=None, **kw)
        ctx.same('results', len(out), num)
        for i in range(num):
            ctx.arr_eq('result %d' % i, out[i], cross(
                r[i], s, nse[i], **kw), 1e-6)
            ctx.arr_eq('response unchanged', rsp[i], r[i])
    return fn


def gains(n, params, nsrc=4, nn=8):
    """gain of source and noise, gains of responses, of one noise"""
    def fn(ctx):
        kw = keywords(ctx.choice('params', params))
        which = ctx.choice('gain', ['source', 'noise', 'all'])
        g = ctx.real('gain', .25, 4)
        # source stays the same if only the noise changes
        gs = 1. if which == 'noise' else g
        s, r = source(0, nsrc), source(3, n)
        nse = noise(0, nn)
        a = [gs * v for v in s]
        b = [g * v for v in nse]
        if which == 'all':
            r = [g * v for v in r]
        other = noise(1, nn)
        out = deconv_multitaper([ctx.arr(r), ctx.arr(source(1, n))],
                                ctx.arr(a), [ctx.arr(b), ctx.arr(other)],
                                normalize=None, **kw)
        if which == 'noise':
            # other component does not depend on this noise
            ctx.arr_eq('other result', out[1], cross(
                source(1, n), s, other, **kw), 1e-6)
        else:
            w = cross(source(3, n), s, nse, **kw)
            ctx.arr_eq('result', out[0],
                       w if which == 'all' else [v / g for v in w], 1e-6)
    return fn


def normalized(n, params, nsrc=4, nn=8):
    """largest amplitude of selected trace is one"""
    def fn(ctx):
        kw = keywords(ctx.choice('params', params))
        sel = ctx.choice('normalize', ['default', 0, 1])
        ref = 0 if sel == 'default' else sel
        sign = ctx.choice('sign', [1., -1.])
        g = [sign * ctx.real('g%d' % i, .5, 4) for i in range(2)]
        ctx.fork_max()
        s = source(0, nsrc)
        nse = [noise(i, nn) for i in range(2)]
        r = [source(3, n), source(1, n)]
        opt = dict(kw) if sel == 'default' else dict(kw, normalize=sel)
        out = deconv_multitaper(
            [ctx.arr([v * x for v in y]) for x, y in zip(g, r)], ctx.arr(s),
            [ctx.arr(x) for x in nse], **opt)
        plain = [cross(r[i], s, nse[i], **kw) for i in range(2)]
        top = max(abs(v) for v in plain[ref])
        for i in range(2):
            f = g[i] / abs(g[ref]) / top
            ctx.arr_eq('result %d' % i, out[i], [v * f for v in plain[i]],
                       1e-5)
    return fn


def stream(n, sr, params, onsets, wins):
    """multitaper deconvolution of a stream"""
    def fn(ctx):
        p = ctx.choice('params', params)
        kw = keywords(p)
        for k in ('sampling_rate', 'tshift'):
            kw.pop(k)
        win = ctx.choice('win', wins)
        k = ctx.choice('onset', onsets)
        given = ctx.choice('noise', ['data', 'given', 'given RFStream'])
        sel = ctx.choice('responses', [None, 'Q', 'LQ'])
        comps = 'LQT'
        off = [.25, 0, 0]
        q = ctx.array('Q', n)
        data = dict(L=source(0, n), Q=list(q), T=source(2, n))
        trs = [trace(q if c == 'Q' else ctx.arr(data[c]), 'N.S..BH' + c, T0,
                     sr, onset=T0 + k / sr) for c in comps]
        i1 = k + int(round(win[0] * sr))
        s = wavelet(data['L'], k, win, sr)
        # noise up to 5 seconds before the onset
        nn = k - int(round(5 * sr)) + 1
        nse = dict((c, noise(i, nn)) for i, c in enumerate(comps))
        opt = {}
        if given != 'data':
            ntrs = [trace(ctx.arr(nse[c]), 'N.S..BH' + c, T0, sr,
                          onset=T0 + k / sr) for c in comps]
            opt['noise'] = RFStream(ntrs)
            if given == 'given':
                opt['noise'] = RFStream(ntrs).copy()
        else:
            if sel != 'LQ':
                ctx.assume(sel is None)
            # response is not symbolic in the noise
            for c in 'Q':
                f = ctx.real('f', -2, 2)
                ctx.line(f)
                data[c] = source(1, nn) + [f * v for v in
                                           source(4, n - nn)]
                trs[1].data = ctx.arr(data[c])
            nse = dict((c, data[c][:nn]) for c in comps)
        if sel is not None:
            opt['response_components'] = sel
        out = deconvolve.deconvolve(
            RFStream(trs), 'multitaper', winsrc=win, normalize=None,
            **dict(opt, **kw))
        ctx.same('traces', [tr.id for tr in out],
                 ['N.S..BH' + c for c in (sel or comps)])
        for tr in out:
            c = tr.stats.channel[-1]
            ctx.arr_eq('result', tr.data, cross(
                data[c], s, nse[c], sampling_rate=sr, tshift=win[0], **kw),
                1e-6)
    return fn


ASSUMPTIONS = [
    'real arithmetic instead of floating point (tolerance 1e-6 of the '
    'scale of the inputs)',
    'tapers and eigenvalues of the installed multitaper package',
    'FFT replaced by the exact transform']


def cases(tier):
    c = [Case('any response', responses(12, [1, 2], PARAMS[:3]),
              '1 or 2 responses of 12 samples, 3 sets of parameters'),
         Case('any response 3 tapers', responses(15, [1], PARAMS[3:4], 7, 9),
              'response of 15 samples'),
         Case('different noise lengths', responses(
              16, [2], PARAMS[:2], 4, 8, True),
              '2 responses of 16 samples, noise of 6 to 12 samples'),
         Case('gains', gains(12, PARAMS[:2]), '12 samples, any gain'),
         Case('normalization', normalized(12, PARAMS[:3]),
              '2 responses with any gain'),
         Case('stream', stream(16, 1., PARAMS[:1], [9, 10],
                               [(-1, 3, 0), (0, 3, 1)]),
              '16 samples, noise given or from the data'),
         Case('long noise', stream(18, .2, [(20., .2, 2, 1.5, .5, .1, 0.)],
                                   [15], [(-5, 15, 0)]),
              '18 samples at 0.2 Hz, 70 s of noise')]
    if tier == 'thorough':
        c += [Case('any response long', responses(
                  24, [1, 3], PARAMS, 10, 16), time=600),
              Case('gains long', gains(16, PARAMS, 6, 10), time=600),
              Case('normalization long', normalized(20, PARAMS, 8, 12),
                   time=300),
              Case('stream long', stream(20, 1., PARAMS[:2], [8, 11, 13],
                                         [(-1, 3, 0), (-2, 4, 1), (0, 3, 1),
                                          (1, 5, 0)]), time=600)]
    return c
