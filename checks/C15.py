"""C15 trim2 and slice2 cut relative to each trace's own reference"""
from obspy import UTCDateTime
from rf import RFStream
from symrf.runner import Case
from checks.util import T0, trace, snap, unchanged, same_headers

N = 4


def stream(ctx, first, sr=1., n=N, ntr=3):
    """traces at different times with different onsets; first is symbolic"""
    ons = [first, 2.0, 1.25][:ntr]
    st = RFStream()
    for i, on in enumerate(ons):
        start = T0 + 100 * i
        d = ctx.arr([10. * i + j for j in range(n)])
        st.append(trace(d, 'N.S%d..BHR' % i, start, sr, onset=start + on,
                        event_time=start - 50.5, slowness=6.4 + i,
                        phase='P', back_azimuth=10. * i))
    return st


def check_cut(ctx, label, before, tr, t1, t2, sr, idx):
    """tr holds the samples of before between t1 and t2 (s after start)"""
    data, h, _ = before
    n = len(data)
    got = [float(v) for v in tr.data]
    ctx.true(label + ' contiguous samples', got == [
        v for v in data if got and got[0] <= v <= got[-1]])
    half = 0.5 / sr
    for j, v in enumerate(data):
        t = j / sr
        inside = v in got
        if inside:
            if t1 is not None:
                ctx.le('%s sample %d is not before window' % (label, j),
                       t1 - half, t)
            if t2 is not None:
                ctx.le('%s sample %d is not after window' % (label, j),
                       t, t2 + half)
        else:
            # must be outside of the window
            lo = hi = False
            conds = []
            if t1 is not None:
                conds.append(t < t1 + 1e-6)
            if t2 is not None:
                conds.append(t > t2 - 1e-6)
            ctx.true('%s sample %d is in window' % (label, j),
                     ctx.any_of(conds))
    if got:
        j0 = data.index(got[0])
        ctx.equal(label + ' starttime', tr.stats.starttime,
                  h['starttime'] + j0 / sr)
    for k in ('onset', 'event_time', 'slowness', 'phase', 'back_azimuth'):
        ctx.true('%s %s there' % (label, k), k in tr.stats)
        if k in tr.stats:
            ctx.equal('%s %s' % (label, k), tr.stats[k], h[k])


def relative(slice_, ref, form, sr=1., n=N, span=3, ntr=3):
    def fn(ctx):
        on = ctx.real('onset', -1, n / sr) if ref == 'onset' else 1.5
        st = stream(ctx, on, sr, n, ntr)
        before = [snap(tr) for tr in st]
        a = None if form == 'none-end' else ctx.real('t1', -span, span)
        b = None if form == 'start-none' else ctx.real('t2', -span, span)
        if a is not None and b is not None:
            ctx.assume(a <= b)
        refs = []
        for tr in st:
            if ref in ('onset', 'starttime', 'endtime', 'event_time'):
                refs.append(tr.stats[ref])
            elif ref == 'utc':
                refs.append(T0 + 1.25)
        kw = {}
        keep = False
        if slice_:
            keep = ctx.boolean('keep')
            if keep:
                kw['keep_empty_traces'] = True
        reftime = T0 + 1.25 if ref == 'utc' else ref
        f = st.slice2 if slice_ else st.trim2
        if form == 'positional':
            out = f(a, b, reftime, **kw)
        else:
            out = f(starttime=a, endtime=b, reftime=reftime, **kw)
        check(ctx, st, out, before, a, b, refs, sr, slice_, keep)
    return fn


def check(ctx, st, out, before, a, b, refs, sr, slice_, keep):
    if slice_:
        unchanged(ctx, 'original', before, st, processing=True)
        ctx.true('new stream', out is not st)
    else:
        ctx.true('in-place', out is st)
    byid = dict((tr.id, tr) for tr in out)
    ctx.same('no trace twice', len(byid), len(out))
    order = [b_[1]['station'] for b_ in before
             if 'N.%s..BHR' % b_[1]['station'] in byid]
    ctx.same('order', [tr.stats.station for tr in out], order)
    ctx.same('type', type(out), RFStream)
    for i, bf in enumerate(before):
        id_ = 'N.%s..BHR' % bf[1]['station']
        start = bf[1]['starttime']
        t1 = None if a is None else (refs[i] + a) - start
        t2 = None if b is None else (refs[i] + b) - start
        n = len(bf[0])
        if id_ not in byid:
            ctx.true('trace kept on request', not keep)
            # no sample may be inside window
            for j in range(n):
                conds = []
                if t1 is not None:
                    conds.append(j / sr < t1 + 1e-6)
                if t2 is not None:
                    conds.append(j / sr > t2 - 1e-6)
                ctx.true('%s sample %d lost' % (id_, j), ctx.any_of(conds))
            continue
        tr = byid[id_]
        if not slice_:
            ctx.true('same trace object', id(tr) == bf[2])
        if len(tr.data) == 0:
            ctx.true('%s empty trace dropped' % id_, keep)
            continue
        check_cut(ctx, id_, bf, tr, t1, t2, sr, i)
    if slice_:
        # headers of the slices can be changed
        for tr in out:
            tr.stats.network = 'NEW'
            tr.stats.onset = tr.stats.slowness = 0
        unchanged(ctx, 'original', before, st, processing=True)


def absolute(slice_, which):
    """absolute times are used as they are with and without reftime"""
    def fn(ctx):
        st = stream(ctx, 1.5)
        before = [snap(tr) for tr in st]
        x, y = ctx.real('t1', -1, 4.5), ctx.real('t2', -1, 4.5)
        if which == 'utc-utc':
            ctx.assume(x <= y)
            refs = [T0] * 3
            args = (ctx.utc(x), ctx.utc(y))
            ref = ctx.choice('ref', [None, 'onset'])
            a, b = x, y
        elif which == 'utc-rel':
            # only first trace is in range of the absolute start time
            st.traces = st.traces[:1]
            before = before[:1]
            ctx.assume(x <= y + 1.5)
            refs = [T0]
            args = (ctx.utc(x), y)
            ref = 'onset'
            a, b = x, y + 1.5
        else:
            st.traces = st.traces[:1]
            before = before[:1]
            ctx.assume(x + 1.5 <= y)
            refs = [T0]
            args = (x, ctx.utc(y))
            ref = 'onset'
            a, b = x + 1.5, y
        f = st.slice2 if slice_ else st.trim2
        out = f(*args, reftime=ref)
        check(ctx, st, out, before, a, b, refs, 1., slice_, False)
    return fn


def options(slice_):
    """keyword arguments are passed to trim of ObsPy"""
    def fn(ctx):
        st = stream(ctx, 1.25)
        near = ctx.boolean('nearest')
        x, y = ctx.real('t1', -2, 0), ctx.real('t2', 0.25, 2)
        kw = {'nearest_sample': near}
        if not slice_ and ctx.boolean('pad'):
            kw.update(pad=True, fill_value=-99.)
        want = []
        for tr in st:
            tr2 = tr.copy()
            tr2.trim(tr.stats.onset + x, tr.stats.onset + y, **kw)
            if len(tr2.data):
                want.append(tr2)
        out = (st.slice2 if slice_ else st.trim2)(x, y, 'onset', **kw)
        ctx.same('number', len(out), len(want))
        for tr, tr2 in zip(out, want):
            ctx.arr_eq('data', tr.data, tr2.data)
            ctx.equal('start', tr.stats.starttime, tr2.stats.starttime)
    return fn


ASSUMPTIONS = [
    'real arithmetic instead of floating point (tolerance 1e-6 of the '
    'scale of the inputs)',
    'obspy trims to the nearest sample; windows exactly between two '
    'samples are left out']


def cases(tier):
    c = []
    for s, nm in ((False, 'trim2'), (True, 'slice2')):
        c.append(Case(nm + ' onset', relative(s, 'onset', 'positional',
                                              n=3, span=2, ntr=1),
                      '1 trace of 3 samples, onset of first in [-1, 3], '
                      'window ends in [-2, 2]', time=100))
        for ref in ('starttime', 'endtime', 'utc'):
            c.append(Case('%s %s' % (nm, ref), relative(s, ref, 'kw'),
                          'window ends in [-3, 3]'))
        c.append(Case(nm + ' open end',
                      relative(s, 'onset', 'start-none', sr=2., span=1),
                      '2 Hz, window end in [-1, 1]'))
        c.append(Case(nm + ' open start',
                      relative(s, 'onset', 'none-end', sr=2., span=1),
                      '2 Hz, window start in [-1, 1]'))
        for w in ('utc-utc', 'utc-rel', 'rel-utc'):
            c.append(Case('%s %s' % (nm, w), absolute(s, w),
                          'absolute times within 2 s around the data'))
        c.append(Case(nm + ' options', options(s),
                      '3 traces, nearest_sample and '
                      'padding'))
        if tier == 'thorough':
            c.append(Case(nm + ' onset 3 traces', relative(
                s, 'onset', 'positional'), time=400, paths=40000,
                bounds='3 traces of 4 samples, onset of first in [-1, 4], '
                'window ends in [-3, 3]'))
            c.append(Case(nm + ' onset 5 Hz', relative(
                s, 'onset', 'kw', sr=5., n=9, span=2, ntr=2), time=400,
                paths=40000,
                bounds='9 samples with 5 Hz'))
            c.append(Case(nm + ' event_time',
                          relative(s, 'event_time', 'kw', span=60)))
    return c
