"""C20 Stacking averages exactly the traces with the same id"""
import numpy as np
from rf import RFStream
from symrf.runner import Case
from checks.util import T0, trace, snap, unchanged

ALPHABETS = [
    ['N.A..BHR', 'N.A..BHT', 'N.B..BHR', 'M.A..BHR', 'N.A.00.BHR'],
    ['N.A..BHR', 'NN.A..BHR', 'N.A..BH', 'N.AA..BHR', 'N.A.0.BHR'],
    ['N.A..BHR', 'N.a..BHR', 'n.A..BHR', 'N.A..bHR', 'N.A..BHr'],
    ['.A..BHR', 'A...BHR', '..A.BHR', '...BHR', '...R']]


def stack_case(ntr, npts, nids, headers=True):
    def fn(ctx):
        trs = []
        info = {}
        IDS = ctx.choice('alphabet', ALPHABETS)
        # pattern of ids: restricted growth over the alphabet
        which = []
        for i in range(ntr):
            w = ctx.integer('id%d' % i, 0, min(nids - 1,
                                               max(which, default=-1) + 1))
            which.append(w)
        for i in range(ntr):
            id_ = IDS[which[i]]
            if id_ not in info:
                k = len(info)
                info[id_] = dict(
                    on=ctx.real('onset%d' % k, -3, 10),
                    lat=ctx.real('lat%d' % k, -90, 90),
                    lon=ctx.real('lon%d' % k, -180, 180),
                    ele=ctx.real('ele%d' % k, 0, 5000),
                    sr=[1., 2., 4., 5., 10.][k],
                    phase='PSPSP'[k], moveout=['Ps', 'Sp', 'Ppss', 'Ppps',
                                               'Spp'][k])
            inf = info[id_]
            start = T0 + 1000 * i
            h = {}
            if headers:
                h = dict(onset=start + inf['on'],
                         station_latitude=inf['lat'],
                         station_longitude=inf['lon'],
                         station_elevation=inf['ele'], phase=inf['phase'],
                         moveout=inf['moveout'])
            data = ctx.array('d%d_' % i, npts)
            trs.append(trace(data, id_, start, inf['sr'], **h))
        st = RFStream(trs)
        before = [snap(tr) for tr in st]
        data = [list(tr.data) for tr in st]
        if not headers:
            # headers which are no weights
            for i, tr in enumerate(st):
                tr.stats.update(dict(num=5 - i, event_magnitude=5. + i,
                                     distance=50. - i, snr=2. * i,
                                     box_pos=i))
            before = [snap(tr) for tr in st]
        out = st.stack()
        present = [IDS[w] for w in sorted(set(which))]
        ctx.same('one trace per id', sorted(tr.id for tr in out),
                 sorted(present))
        for tr in out:
            own = [data[i] for i in range(ntr) if IDS[which[i]] == tr.id]
            if not own:
                continue
            mean = [sum(c) / float(len(own)) for c in zip(*own)]
            ctx.arr_eq('mean %s' % tr.id, tr.data, mean)
            inf = info[tr.id]
            ctx.eq('sampling rate', tr.stats.sampling_rate, inf['sr'])
            if not headers:
                continue
            ctx.true('onset there', 'onset' in tr.stats)
            if 'onset' in tr.stats:
                ctx.eq('onset', tr.stats.onset - tr.stats.starttime,
                       inf['on'])
            for k, k2 in (('station_latitude', 'lat'),
                          ('station_longitude', 'lon'),
                          ('station_elevation', 'ele')):
                ctx.eq(k, tr.stats.get(k, 1e9), inf[k2])
            ctx.same('phase', tr.stats.get('phase'), inf['phase'])
            ctx.same('moveout', tr.stats.get('moveout'), inf['moveout'])
        unchanged(ctx, 'input', before, st)
        # order does not matter
        out2 = RFStream(st.traces[::-1]).stack()
        for tr in out2:
            same = [t for t in out if t.id == tr.id]
            if same:
                ctx.arr_eq('order %s' % tr.id, tr.data, same[0].data)
        ctx.same('order ids', sorted(t.id for t in out2), sorted(present))
    return fn


def lengths(ctx):
    """a mean over traces of different lengths is not defined"""
    trs = []
    ns = [3, 3, 3]
    ns[ctx.integer('other', 0, 2)] = ctx.choice('length', [2, 4, 5, 0])
    for i, n in enumerate(ns):
        trs.append(trace(ctx.array('d%d_' % i, n), 'N.A..BHR',
                         T0 + 1000 * i, 1., onset=T0 + 1000 * i + 1))
    try:
        RFStream(trs).stack()
    except Exception:
        ctx.true('refused', True)
    else:
        ctx.true('traces of different lengths are not averaged', False)


def counts(ctx):
    """traces of integers as read from a file"""
    dtype = ctx.choice('type', ['int32', 'int16', 'float32', 'int64'])
    first = ctx.choice('first', [0, 1, 2])
    ns = [[1, 2, 40], [2, -7, 5]]
    x = ctx.array('d', 3)
    data = [np.array(n, dtype=dtype) for n in ns]
    data.insert(first, x)
    trs = [trace(d, 'N.A..BHR', T0 + 1000 * i, 1., onset=T0 + 1000 * i + 1)
           for i, d in enumerate(data)]
    # integers only
    trs += [trace(np.array(n, dtype=dtype), 'N.A..BHT', T0 + 1000 * i, 1.,
                  onset=T0 + 1000 * i + 1) for i, n in enumerate(ns)]
    want = [(a + b + c) / 3. for a, b, c in zip(*(ns + [list(x)]))]
    out = RFStream(trs).stack()
    ctx.same('ids', sorted(tr.id for tr in out), ['N.A..BHR', 'N.A..BHT'])
    for tr in out:
        ctx.arr_eq('mean ' + tr.id, tr.data, want if tr.id[-1] == 'R' else
                   [(a + b) / 2. for a, b in zip(*ns)])


ASSUMPTIONS = [
    'real arithmetic instead of floating point (tolerance 1e-6 of the '
    'scale of the inputs)']


def cases(tier):
    c = [Case('stack 3 traces', stack_case(3, 3, 3),
              '3 traces of 3 samples in [-10, 10], all id patterns over 3 '
              'ids, onset, coordinates symbolic'),
         Case('stack 4 traces', stack_case(4, 2, 3),
              '4 traces of 2 samples, all id patterns over 3 ids'),
         Case('stack 5 traces', stack_case(5, 2, 5),
              '5 traces of 2 samples, all id patterns over 5 ids'),
         Case('different lengths', lengths, '3 traces, one of them with '
              '0, 2, 4 or 5 instead of 3 samples'),
         Case('integers', counts, '3 traces of 3 samples, one with any '
              'values, and 2 traces of integers'),
         Case('stack without headers', stack_case(3, 2, 2, False),
              '3 traces without optional headers')]
    if tier == 'thorough':
        c.append(Case('stack 6 traces', stack_case(6, 3, 5), time=500,
                      bounds='6 traces of 3 samples, all id patterns over '
                      '5 ids'))
    return c
