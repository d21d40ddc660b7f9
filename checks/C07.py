"""C07 Deconvolution uses the right source, window and responses"""
import math
import warnings
from rf import RFStream, deconvolve
from symrf.runner import Case
from checks.util import T0, trace

COMPS = ['LQT', 'ZRT', 'TQL', 'QLT', 'LQ', 'RZ', 'ZNE', 'L', 'LZT', 'LQTR',
         'LQQ', 'LQTT']


def stream(ctx, comps, n, onset, sr=1., data=None, shift=0.):
    trs = []
    for i, c in enumerate(comps):
        d = ctx.array('%s%d_' % (c, i), n) if data is None else data(c, i)
        trs.append(trace(d, 'N.S..BH' + c, T0 + i * shift, sr,
                         onset=T0 + onset,
                         slowness=6.4, event_magnitude=5.5 + i))
    return RFStream(trs)


def taper(d, sec, sr):
    """values with cosine taper of given seconds at both ends"""
    n = len(d)
    w = int(min(sec * sr, n * .5))
    out = list(d)
    for i in range(w):
        if 2 * w == n:
            f = .5 - .5 * math.cos(2 * math.pi * i / (2 * w - 1))
        else:
            f = .5 - .5 * math.cos(math.pi * i / w)
        out[i] = out[i] * f
        out[n - 1 - i] = out[n - 1 - i] * f
    return out


def wavelet(d, k, win, sr):
    """source with onset at sample k cut to window"""
    i1 = k + int(round(win[0] * sr))
    i2 = k + int(round(win[1] * sr))
    w = [d[i] if 0 <= i < len(d) else 0. for i in range(i1, i2 + 1)]
    return taper(w, win[2], sr)


def capture(calls, ret=None):
    def func(rsp, src, tshift=None, **kw):
        calls.append(dict(rsp=[(tr.id, list(tr.data), dict(tr.stats))
                               for tr in rsp], type=type(rsp).__name__,
                          src=list(src.data), srcid=src.id,
                          srcstats=dict(src.stats), tshift=tshift, kw=kw))
        for i, tr in enumerate(rsp):
            tr.data = tr.data * (i + 2.)
        return rsp
    return func


def select(comps_list, srcs, rsps, n=3):
    """which traces are source and responses"""
    def fn(ctx):
        comps = ctx.choice('comps', comps_list)
        src = ctx.choice('src', srcs)
        rsp = ctx.choice('rsp', rsps)
        method = ctx.choice('via', ['function', 'method'])
        st = stream(ctx, comps, n, 1.)
        data = [list(tr.data) for tr in st]
        calls = []
        kw = dict(method='func', func=capture(calls), extra='x',
                  winsrc=(-1, 1, 0))
        if src is not None:
            kw['source_components'] = src
        if rsp is not None:
            kw['response_components'] = rsp
        given = ctx.choice('norm', ['no', None, 2]) if rsp is None else 'no'
        if given != 'no':
            kw['normalize'] = given
        s = [i for i, c in enumerate(comps) if c in (src or 'LZ')]
        r = [i for i, c in enumerate(comps) if rsp is None or c in rsp]
        f = st.deconvolve if method == 'method' else \
            (lambda **kw: deconvolve.deconvolve(st, **kw))
        if len(s) != 1 or not 0 < len(r) < 4:
            ctx.raises('invalid number of components', ValueError, f, **kw)
            return
        out = f(**kw)
        ctx.same('one call', len(calls), 1)
        c = calls[0]
        want = ['N.S..BH' + comps[i] for i in r]
        ctx.same('source', c['srcid'], 'N.S..BH' + comps[s[0]])
        ctx.arr_eq('source data', c['src'], data[s[0]])
        ctx.same('responses', [x[0] for x in c['rsp']], want)
        for x, i in zip(c['rsp'], r):
            if comps.count(comps[i]) == 1:
                ctx.arr_eq('response', x[1], data[i])
        ctx.same('other argument', c['kw'].get('extra'), 'x')
        ctx.eq('tshift', c['tshift'], 1.)
        if given != 'no':
            ctx.true('normalize as requested',
                     c['kw'].get('normalize', 'x') == given)
        elif s[0] in r:
            ctx.same('normalize', c['kw'].get('normalize'), r.index(s[0]))
        else:
            ctx.true('normalize not given', 'normalize' not in c['kw'])
        if method == 'method':
            ctx.true('returns stream', out is st)
        ctx.same('order of results', [tr.id for tr in out], want)
        for k, (tr, i) in enumerate(zip(out, r)):
            ctx.arr_eq('results', tr.data, [(k + 2.) * v for v in data[i]])
            ctx.eq('magnitude', tr.stats.event_magnitude, 5.5 + i)
    return fn


def window(n, srs, wins, lo=None, hi=None, comps='LQT', rsp=(None, 'QT', 'LT', 'L'),
           shifts=(0.,)):
    """symbolic onset, given windows"""
    def fn(ctx):
        sr = ctx.choice('sr', srs)
        win = ctx.choice('win', wins)
        r = ctx.choice('rsp', rsp)
        t = ctx.real('onset', -2 if lo is None else lo,
                     n / sr + 1 if hi is None else hi)
        shift = ctx.choice('shift', shifts)
        st = stream(ctx, comps, n, t, sr, shift=shift)
        data = dict((tr.stats.channel[-1], list(tr.data)) for tr in st)
        src = comps[0]
        calls = []
        kw = {}
        if isinstance(win, tuple):
            kw['winsrc'] = win
        elif win is not None:
            kw['winsrc'] = win
        w = win if isinstance(win, tuple) else (-10, 30, 5)
        out = deconvolve.deconvolve(
            st, 'func', capture(calls), source_components=src,
            response_components=r, **kw)
        ctx.same('one call', len(calls), 1)
        c = calls[0]
        on = c['srcstats']['onset'] - T0
        k = None
        for i in range(n):
            if abs(on - i / sr) < 1e-5:
                k = i
        ctx.true('onset at sample', k is not None)
        if k is None:
            return
        # nearest sample
        if k > 0:
            ctx.le('nearest (left)', k - .5, t * sr)
        if k < n - 1:
            ctx.le('nearest (right)', t * sr, k + .5)
        e = wavelet(data[src], k, w, sr)
        ctx.arr_eq('wavelet', c['src'], e)
        ctx.eq('start of wavelet', c['srcstats']['starttime'] - T0,
               k / sr + round(w[0] * sr) / sr)
        ctx.eq('tshift', c['tshift'], -w[0])
        for tr in out:
            ctx.eq('onset of responses', tr.stats.onset - T0, k / sr)
            ctx.eq('start of responses', tr.stats.starttime - T0,
                   shift * comps.index(tr.stats.channel[-1]))
        for x in c['rsp']:
            ctx.arr_eq('response ' + x[0], x[1], data[x[0][-1]])
            ctx.eq('onset ' + x[0], x[2]['onset'] - T0, k / sr)
        ctx.same('type', c['type'], 'RFStream')
    return fn


SRC = [.25, -.5, 3., 4., -2., .5, 1., -.25, .125, 0., .5, .25]


def methods(ctx):
    """unknown methods"""
    st = stream(ctx, 'LQ', 3, 1.)
    data = [list(tr.data) for tr in st]
    m = ctx.choice('method', ['x', 'Time', '', 'wiener', None])
    ctx.raises('method %r' % m, NotImplementedError, deconvolve.deconvolve,
               st, m)
    for tr, d in zip(st, data):
        ctx.arr_eq('data', tr.data, d)


def norm(kind, n=6, comps_list=('LQT', 'QLT', 'TQL', 'QL'),
         i0=2, early=False):
    """default normalization and windows of the methods"""
    def fn(ctx):
        comps = ctx.choice('comps', comps_list)

        def data(c, i):
            if c == 'L':
                return ctx.arr((SRC + SRC)[4:4 + n] if i0 > 2 else SRC[:n])
            if kind == 'iterative':
                a = ctx.real('a', -3, 3)
                return ctx.arr([a * ((j % 3) - 1.) + SRC[j + 3]
                                for j in range(n)])
            return ctx.array('%s_' % c, n)
        st = stream(ctx, comps, n, i0 + .125, 1., data)
        base = dict(method=kind)
        if kind == 'time':
            base['solve_toeplitz'] = 'scipy'
        end = n - 1. - i0
        if kind == 'time':
            win = (-2, 2, 1)
            wins = [(win, win)]
        elif kind == 'waterlevel':
            wins = [('P', (-i0, end, 5)), ((-1, 2, 0), (-1, 2, 0))]
            if i0 >= 10 or early:
                wins = [('S', (-10, end, 5))]
        else:
            wins = [('P', (-i0, end, 0)), ('S', (-i0, end, 0))]
            base['itmax'] = 1
        w1, w2 = ctx.choice('win', wins)
        given = ctx.choice('normalize', ['default', 'index'])
        outs = []
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            a = deconvolve.deconvolve(st.copy(), winsrc=w1, **base)
            if given == 'default':
                b = deconvolve.deconvolve(st.copy(), winsrc=w2,
                                          normalize=None, **base)
            else:
                b = deconvolve.deconvolve(st.copy(), winsrc=w2,
                                          normalize=comps.index('L'), **base)
        ctx.same('order', [tr.stats.channel[-1] for tr in a], list(comps))
        src = [float(v) for v in b[comps.index('L')].data]
        if given == 'default':
            m = max(src) if kind == 'waterlevel' else max(map(abs, src))
        else:
            m = 1.
        for x, y in zip(a, b):
            ctx.same('length', len(x.data), n)
            ctx.arr_eq('normalized ' + x.id, x.data,
                       [v * (1. / m) for v in y.data])
            outs.append(x)
        ctx.eq('source is normalized', max(float(v) for v in a[
            comps.index('L')].data), 1.)
    return fn


def excluded(ctx):
    """source not among the responses"""
    n = 5

    def data(c, i):
        if c == 'L':
            return ctx.arr(SRC[:n])
        if c == 'Q':
            return ctx.arr(SRC[3:n + 3])
        return ctx.array('%s_' % c, n)
    kind = ctx.choice('method', ['time', 'waterlevel'])
    rsp = ctx.choice('rsp', ['QT', 'TQ', 'Q'])
    st = stream(ctx, 'LQT', n, 2., 1., data)
    kw = dict(method=kind, response_components=rsp, winsrc=(-1, 1, 0))
    if kind == 'time':
        kw['solve_toeplitz'] = 'scipy'
    a = deconvolve.deconvolve(st.copy(), **kw)
    b = deconvolve.deconvolve(st.copy(), normalize=None, **kw)
    ctx.same('order', [tr.stats.channel[-1] for tr in a],
             ['Q', 'T'][:len(rsp)])
    d = [float(v) for v in b[0].data]
    m = max(d) if kind == 'waterlevel' else max(map(abs, d))
    for x, y in zip(a, b):
        ctx.arr_eq('normalized to first ' + x.id, x.data,
                   [v * (1. / m) for v in y.data])


ASSUMPTIONS = [
    'real arithmetic instead of floating point (tolerance 1e-6 of the '
    'scale of the inputs)',
    'taper of obspy is that of the installed version',
    'default windows of waterlevel and iterative deconvolution as in the '
    'source code the documentation refers to']


def cases(tier):
    c = [Case('components', select(
              COMPS, [None, 'LZ', 'QR', 'Z', 'T', 'LQ', 'X'],
              [None, 'QT', 'L', 'TQLZRNE', 'X', 'LQ']),
              '1 to 4 components, 7 selections of sources and 6 of '
              'responses'),
         Case('windows', window(5, [1., 2.], [(-1, 1, 0), (-2, 3, 2),
                                              (-1, 2, 5), (1, 3, 1)]),
              '5 samples at 1 and 2 Hz, onset -2 s to 1 s behind the data, 4 '
              'windows'),
         Case('default windows', window(45, [1.], [None, 'P', 'S'], 10.4,
                                        12.6, rsp=(None,)),
              '45 samples at 1 Hz, onset 10.4 to 12.6 s'),
         Case('default windows padded', window(12, [.5], [None], 3., 7.,
                                               rsp=('Q',)),
              '12 samples at 0.5 Hz'),
         Case('slow sampling', window(6, [.25, 4.], [(-4, 8, 4)], -1., 3.),
              '6 samples at 0.25 and 4 Hz'),
         Case('other start times', window(
             6, [2.], [(-1, 1, 0)], .3, 2.2, shifts=(.25, -.15, .6, -1.)),
              '6 samples at 2 Hz, components start at different times'),
         Case('methods', methods, '5 methods'),
         Case('normalization time', norm('time'), '6 samples, given source'),
         Case('normalization waterlevel', norm('waterlevel'),
              '6 samples, given source'),
         Case('default window of S', norm('waterlevel', 14, ('LQ',), 10),
              '14 samples, given source'),
         Case('default window of S early', norm('waterlevel', 8, ('LQ',), 3,
                                                True),
              '8 samples, given source, window starts before the data'),
         Case('normalization iterative', norm('iterative', 4, ('LQ', 'QL')),
              '4 samples, given source, one iteration, one parameter', time=40),
         Case('source excluded', excluded, '5 samples')]
    if tier == 'thorough':
        c += [Case('windows long', window(
                  12, [1., 2., 5.], [(-1, 1, 0), (-2, 3, 2), (-1, 2, 5),
                                     (-5, 5, 1), (1, 3, 1), (0, 8, 2)]),
                  time=600),
              Case('normalization waterlevel long', norm(
                  'waterlevel', 12), time=300),
              Case('normalization time long', norm('time', 10), time=300)]
    return c
