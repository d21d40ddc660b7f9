"""C05 rf() applies the right polarity, mirroring and bookkeeping"""
import warnings
from obspy import Stream
from rf import RFStream
from rf.rfstream import RFTrace
from symrf.runner import Case
from checks.util import T0, trace

FILTERS = [None, {'type': 'lowpass', 'freq': .2, 'corners': 1}]


def three(ctx, k, comps, n, sr, phase, onset, band='BH', **stats):
    """traces of one event"""
    out = []
    for c in comps:
        data = ctx.array('%s%d_' % (c, k), n)
        h = dict(onset=T0 + 100 * k + onset, back_azimuth=30. + 70 * k,
                 inclination=20. + 5 * k, slowness=6.4, event_magnitude=5.5,
                 distance=60. + k)
        if phase is not None:
            h['phase'] = phase
        h.update(stats)
        out.append(trace(data, 'N.S..' + band + c, T0 + 100 * k, sr, **h))
    return out


def expected(trs, method, filter, trim, downsample, rotate, func):
    """the documented processing of the traces of one event, by hand"""
    st = Stream()
    for tr in trs:
        st.append(tr.copy())
    if filter:
        for tr in st:
            tr.filter(**filter)
    if trim:
        for tr in st:
            tr.trim(*[None if t is None else tr.stats.onset + t
                      for t in trim])
    if downsample:
        for tr in st:
            q = int(tr.stats.sampling_rate // downsample)
            if q > 1:
                tr.decimate(q)
    if rotate:
        st.rotate(rotate)
    data = {}
    for tr in st:
        d = list(tr.data)
        if tr.stats.channel[-1] == 'Q':
            d = [-1. * v for v in d]
        if func:
            d = [3. * v + 1. for v in d]
        off = tr.stats.onset - tr.stats.starttime
        if method == 'S':
            d = d[::-1]
            off = (len(d) - 1) / tr.stats.sampling_rate - off
        data[tr.stats.channel] = (d, off, tr.stats.starttime,
                                  tr.stats.sampling_rate)
    return data


def rf_case(comps, rotates, nev=2, n=4, srs=(1.,), filters=(None,),
            trims=(None,), downs=(None,), methods=('P', 'S', None),
            phases=('P', 'S', 'PP', 'SKS'), deconvs=(None, 'func'),
            keep=(True,), onsets=(1.,), bands=('BH',), types=(None,)):
    def fn(ctx):
        phase = ctx.choice('phase', phases)
        method = ctx.choice('method', methods)
        if method is not None:
            method0 = method
        else:
            method0 = phase[-1]
        rotate = ctx.choice('rotate', rotates)
        sr = ctx.choice('sr', srs)
        filt = ctx.choice('filter', filters)
        trim = ctx.choice('trim', trims)
        down = ctx.choice('down', downs)
        deconv = ctx.choice('deconv', deconvs)
        same = ctx.choice('same', keep) if deconv else True
        onset = ctx.choice('onset', onsets)
        if onset is None:
            onset = ctx.real('onset', 0, (n - 1) / sr)
        band = ctx.choice('band', bands)
        type_ = ctx.choice('type', types)
        evs = [three(ctx, k, comps, n, sr, phase, onset, band,
                     **({} if type_ is None else {'type': type_}))
               for k in range(nev)]
        st = RFStream([tr for ev in evs for tr in ev])
        exp = [expected(ev, method0, filt, trim, down, rotate, deconv)
               for ev in evs]
        calls = []

        def func(rsp, src, tshift=None, extra=None, normalize=None):
            calls.append((src.stats.channel[-1], rsp[0].stats.starttime,
                          extra, sorted(tr.stats.channel[-1] for tr in rsp)))
            if same:
                for tr in rsp:
                    tr.data = tr.data * 3. + 1.
                return rsp
            out = RFStream()
            for tr in rsp:
                tr2 = RFTrace(data=tr.data * 3. + 1., header=tr.stats)
                out.append(tr2)
            return out

        kw = {}
        if method is not None:
            kw['method'] = method
        if filt:
            kw['filter'] = dict(filt)
        if trim:
            kw['trim'] = trim
        if down:
            kw['downsample'] = down
        if deconv:
            kw.update(func=func, extra=42, winsrc=(0, 1. / sr, 0))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            r = st.rf(rotate=rotate, deconvolve=deconv, **kw)
        ctx.true('returns stream', r is st)
        ctx.same('number of traces', len(st), nev * len(comps))
        for k in range(nev):
            start = T0 + 100 * k - 20
            got = [tr for tr in st if start <= tr.stats.starttime <
                   start + 100]
            ctx.same('channels', sorted(tr.stats.channel for tr in got),
                     sorted(exp[k]))
            for tr in got:
                if tr.stats.channel not in exp[k]:
                    continue
                d, off, t, rate = exp[k][tr.stats.channel]
                lab = 'event %d %s ' % (k, tr.stats.channel)
                ctx.arr_eq(lab + 'data', tr.data, d)
                s = tr.stats
                ctx.eq(lab + 'onset', s.onset - t, off)
                ctx.eq(lab + 'start', s.starttime - t, 0.)
                ctx.eq(lab + 'rate', s.sampling_rate, rate)
                ctx.same(lab + 'type', s.get('type'), 'rf')
                ctx.same(lab + 'phase', s.get('phase', '?')[-1], method0)
                ctx.eq(lab + 'distance', s.distance, 60. + k)
                ctx.eq(lab + 'slowness', s.slowness, 6.4)
        ctx.same('stream type', st.type, 'rf')
        ctx.same('stream method', st.method, method0)
        if deconv:
            src = [c for c in (rotate[-3:] if rotate == 'ZNE->LQT' else
                               'ZRT' if rotate else comps)
                   if c in ('LZ' if method0 == 'P' else 'QR')][0]
            ctx.same('calls', [c[:3] for c in sorted(
                calls, key=lambda c: str(c[1]))],
                [(src, exp[k][band + src][2], 42) for k in range(nev)])
    return fn


def sources(ctx):
    """source components given"""
    comps = ctx.choice('comps', ['LQT', 'ZRT'])
    method = ctx.choice('method', 'PS')
    src = ctx.choice('src', [None, comps[0], comps[1], comps[2]])
    st = RFStream(three(ctx, 0, comps, 3, 1., method, 1.))
    seen = []

    def func(rsp, src, **kw):
        seen.append(src.stats.channel[-1])
        return rsp
    kw = {} if src is None else {'source_components': src}
    st.rf(method=method, rotate=None, deconvolve='func', func=func, **kw)
    if src is None:
        src = comps[0] if method == 'P' else comps[1]
    ctx.same('source', seen, [src])


def unknown(ctx):
    """unknown methods are refused and nothing is changed"""
    st = RFStream(three(ctx, 0, 'LQT', 3, 1., ctx.choice(
        'phase', [None, 'X', 'Pdiff']), 1.))
    data = [list(tr.data) for tr in st]
    m = ctx.choice('method', [None, 'X', 'PS', '', 'p', 'Ps', 'SP'])
    ctx.raises('method %r' % m, ValueError, st.rf, method=m, rotate=None,
               deconvolve=None)
    for tr, d in zip(st, data):
        ctx.arr_eq('data', tr.data, d)
        ctx.true('no type', 'type' not in tr.stats)


def subsets(ctx):
    """streams with two components and with other traces"""
    method = ctx.choice('method', 'PS')
    comps = ctx.choice('comps', ['LQ', 'QL', 'ZR', 'LQT', 'TQL', 'RTZ'])
    st = RFStream(three(ctx, 0, comps, 3, 1., method, 1.))
    d = dict((tr.stats.channel, list(tr.data)) for tr in st)

    def func(rsp, src, **kw):
        for tr in rsp:
            tr.data = tr.data * 2.
        return rsp
    st.rf(rotate=None, deconvolve='func', func=func)
    ctx.same('order', [tr.stats.channel[-1] for tr in st], list(comps))
    for tr in st:
        f = -2. if tr.stats.channel[-1] == 'Q' else 2.
        e = [f * v for v in d[tr.stats.channel]]
        ctx.arr_eq(tr.stats.channel, tr.data, e[::-1] if method == 'S' else e)


def results(ctx):
    """traces returned by a custom function, fewer or more than before"""
    method = ctx.choice('method', 'PS')
    nev = 2
    st = RFStream([tr for k in range(nev)
                   for tr in three(ctx, k, 'LQT', 3, 1., method, 1.)])
    names = ctx.choice('names', ['Q', 'QT', 'ABCD', 'QLTAB'])
    vals = dict((k, [ctx.array('r%d_%d_' % (k, i), 3)
                     for i in range(len(names))]) for k in range(nev))
    form = ctx.choice('form', ['stream', 'list'])

    def func(rsp, src, **kw):
        k = int(round((src.stats.starttime - T0) / 100.))
        out = [RFTrace(data=v.copy(), header=dict(
            src.stats, channel='BH' + c)) for v, c in zip(vals[k], names)]
        return RFStream(out) if form == 'stream' else out
    st.rf(rotate=None, deconvolve='func', func=func)
    ctx.same('number of traces', len(st), nev * len(names))
    for k in range(nev):
        got = dict((tr.stats.channel[-1], tr) for tr in st
                   if abs(tr.stats.starttime - T0 - 100 * k) < 20)
        ctx.same('results %d' % k, sorted(got), sorted(names))
        for c, v in zip(names, vals[k]):
            if c in got:
                s = got[c].stats
                ctx.arr_eq('result %d %s' % (k, c), got[c].data,
                           list(v)[::-1] if method == 'S' else list(v))
                ctx.same('type', s.get('type'), 'rf')
                ctx.same('phase', s.get('phase', '?')[-1], method)


def options(ctx):
    """the same result as the deconvolution with default options"""
    method = ctx.choice('method', 'PS')
    how = ctx.choice('deconvolve', ['time', 'waterlevel', 'iterative'])
    comps = ctx.choice('comps', ['LQT', 'QLT', 'TRZ', 'QL'])
    kw = dict(ctx.choice('options', [
        {}, {'winsrc': (-1, 2, 1)}, {'normalize': None},
        {'response_components': 'QRT', 'normalize': None}]))
    src = ('LZ' if method == 'P' else 'QR')
    if how == 'iterative':
        kw['itmax'] = 1
        a = ctx.real('a', .5, .6)
        ctx.line(a)
    given = ctx.choice('given', [None, 'P', 'S'])
    st = RFStream(three(ctx, 0, comps, 4, 1., given or method, 1.))
    for i, tr in enumerate(st):
        c = tr.stats.channel[-1]
        if c in src:
            tr.data = ctx.arr([.5, 2., -1., .25])
        elif how == 'iterative':
            tr.data = ctx.arr([1., -2., .5 + i, a])
    want = st.copy()
    for tr in want:
        if tr.stats.channel[-1] == 'Q':
            tr.data = -1. * tr.data
    kw2 = dict(kw)
    kw2.setdefault('winsrc', method)
    for tr in want:
        tr.stats.phase = method
    want = want.deconvolve(how, source_components=src, **kw2)
    if how != 'time':
        kw['deconvolve'] = how
    if given is not None:
        # may differ from the phase in the header
        kw['method'] = method
    st.rf(rotate=None, **kw)
    ctx.same('components', [tr.id for tr in st], [tr.id for tr in want])
    for tr, tr2 in zip(st, want):
        d = list(tr2.data)
        ctx.arr_eq(tr.id, tr.data, d[::-1] if method == 'S' else d)


ASSUMPTIONS = [
    'real arithmetic instead of floating point (tolerance 1e-6 of the '
    'scale of the inputs)',
    'filter, decimate and rotate of obspy are recorded or replaced by '
    'affine maps, except where listed']


def cases(tier):
    b = 'two events of 3 components with 4 samples'
    c = [Case('polarity', rf_case(
              ['L', 'Q', 'T'], [None], keep=(True, False),
              bands=('BH', 'QH', 'LQ')), b),
         Case('radial', rf_case(['Z', 'R', 'T'], [None],
                                bands=('BH', 'QZ')), b),
         Case('rotation LQT', rf_case('ZNE', ['ZNE->LQT'],
                                      phases=('P', 'S')), b),
         Case('rotation RT', rf_case('ZNE', ['NE->RT'], phases=('P', 'S')),
              b),
         Case('any onset', rf_case('LQT', [None], phases=('P', 'S'),
                                   deconvs=(None,), onsets=(None,),
                                   types=(None, 'rf', 'profile')),
              b + ', onset anywhere in the data'),
         Case('preprocessing', rf_case(
              'ZNE', ['ZNE->LQT'], nev=1, n=9, phases=('S',), onsets=(4.,),
              methods=('P', None), filters=FILTERS,
              trims=(None, (-2, 3), (None, 0)), downs=(None, .5, .35, 2.)),
              'one event of 9 samples, lowpass filter, trim, downsample'),
         Case('sources', sources, '3 samples'),
         Case('deconvolution', options, '4 samples'),
         Case('results', results, '3 samples, 1 to 5 results per event'),
         Case('unknown method', unknown, '3 samples'),
         Case('sets of components', subsets, '3 samples')]
    if tier == 'thorough':
        c += [Case('preprocessing long', rf_case(
                  'ZNE', [None, 'ZNE->LQT', 'NE->RT'], nev=2, n=12,
                  phases=('P', 'S'), onsets=(4., 5.),
                  filters=FILTERS + [{'type': 'bandpass', 'freqmin': .1,
                                      'freqmax': .3, 'corners': 2}],
                  trims=(None, (-3, 4), (-2.5, 3), (0, None)),
                  downs=(None, .5, .3),
                  deconvs=(None,)), time=600),
              Case('more events', rf_case('LQT', [None], nev=4, n=8,
                                          onsets=(2., 7.)), time=300),
              Case('more onsets', rf_case('LQT', [None], nev=2, n=8,
                                          deconvs=(None,), onsets=(None,)),
                   time=300)]
    return c
