"""C22 A profile stacks each trace once into its own box"""
from itertools import permutations
import numpy as np
from rf import RFStream, get_profile_boxes
from rf.profile import profile
from symrf.runner import Case
from checks.C21 import plane, at
from checks.util import T0, trace, snap, unchanged

BINS = (0., 80., 160., 210.)
NARROW = (0., .4, .8, 1.05)
LAT0, LON0, AZ, WIDTH = 10., -20., 90, 120.
COMPS = 'QTL'


class Bar(object):
    """iterable like a progressbar"""

    def __init__(self, iterable):
        self.iterable = iterable

    def __iter__(self):
        return iter(self.iterable)


def source(kind, st):
    if kind == 'stream':
        return st
    if kind == 'bar':
        return Bar(st)
    if kind == 'iterator':
        return iter(st.traces)
    if kind == 'generator':
        return (tr for tr in st.traces)
    return list(st.traces)


def boxes_of(n, bins=BINS):
    """the boxes and their positions"""
    return get_profile_boxes((LAT0, LON0), AZ, bins[:n + 1], WIDTH)


def position(ctx, i, nbox, far, bins=BINS):
    """any piercing point which is not at the edge of a box"""
    m = .025 * bins[1]
    a = ctx.real('along%d' % i, -.75 * bins[1], bins[nbox] + .75 * bins[1])
    b = ctx.real('across%d' % i, -130., 130.) if far else \
        ctx.real('near%d' % i, -.6 * bins[1], .6 * bins[1])
    ok = [bool(b > -WIDTH / 2 + 2) and bool(b < WIDTH / 2 - 2)]
    if not ok[0]:
        ctx.assume(ctx.any_of([b < -WIDTH / 2 - 2, b > WIDTH / 2 + 2]))
        return a, b, None
    for k in range(nbox):
        if a > bins[k] + m and a < bins[k + 1] - m:
            return a, b, k
    ctx.assume(ctx.any_of([a < bins[0] - m, a > bins[nbox] + m]))
    return a, b, None


def stack(ntr, nbox, npts, ncomp, kinds=('stream',), order=False, far=False,
          optional=(True,), odd=False, bins=BINS, names=(COMPS,)):
    def fn(ctx):
        kind = ctx.choice('source', kinds)
        comps = ctx.choice('names', list(names))
        opt = ctx.choice('optional', optional)
        onset = ctx.real('onset', -3, 10)
        trs, where, comp = [], [], []
        for i in range(ntr):
            c = ctx.integer('comp%d' % i, 0, min(ncomp - 1, i))
            comp.append(comps[c])
            a, b, k = position(ctx, i, nbox, far, bins)
            where.append(k)
            lat, lon = at(LAT0, LON0, AZ, a, b)
            start = T0 + 1000 * i
            h = {}
            if opt:
                h = dict(onset=start + onset, slowness=6.4, phase='P',
                         moveout='Ps', back_azimuth=10. * i,
                         event_time=start - 500, type='rf',
                         # e.g. number of stacked traces
                         num=2 + i, box_pos=-3.)
            # channels and stations differ from trace to trace
            id_ = 'N.S%d.%02d.%s%s' % (i, i, ('BH', 'HH', 'B1')[i % 3],
                                       comp[i])
            trs.append(trace(ctx.array('d%d_' % i, npts), id_, start,
                             4. if odd else 2., pp_latitude=lat,
                             pp_longitude=lon, pp_depth=50., **h))
        st = RFStream(trs)
        before = [snap(tr) for tr in trs]
        with plane(ctx):
            boxes = boxes_of(nbox, bins)
            attrs = [(b['pos'], b['length']) + tuple(b['latlon'])
                     for b in boxes]
            out = profile(source(kind, st), boxes)
            perms = list(permutations(range(ntr)))[1:] if order else []
            outs = [(p, profile(RFStream([trs[i] for i in p]), boxes))
                    for p in perms]
        want = {}
        for i in range(ntr):
            if where[i] is not None:
                want.setdefault((comp[i], where[i]), []).append(i)
        for p, o in [(tuple(range(ntr)), out)] + outs:
            check(ctx, str(p), o, want, before, nbox, onset if opt else None,
                  opt, attrs, 4. if odd else 2., bins)
        unchanged(ctx, 'input', before, st)
    return fn


def check(ctx, l, out, want, before, nbox, onset, opt, attrs, sr, bins=BINS):
    keys = sorted(want)
    mids = [(bins[k] + bins[k + 1]) / 2 for k in range(nbox)]
    ctx.same(l + ' stream has type', type(out).__name__, 'RFStream')
    ctx.same(l + ' number of traces', len(out), len(keys))
    got = [(tr.stats.channel[-1:], mids.index(tr.stats.box_pos)
            if tr.stats.get('box_pos') in mids else None) for tr in out]
    ctx.same(l + ' components and positions in order', got, keys)
    if got != keys:
        return
    for tr, key in zip(out, keys):
        own = want[key]
        m = '%s %s%d ' % ((l,) + key)
        n = float(len(own))
        mean = [sum(v) / n for v in zip(*[before[i][0] for i in own])]
        s = tr.stats
        ctx.arr_eq(m + 'mean', tr.data, mean)
        ctx.same(m + 'number', s.get('num'), len(own))
        pos, length, lat, lon = attrs[key[1]]
        for k, v in (('box_pos', pos), ('box_length', length),
                     ('box_latitude', lat), ('box_longitude', lon),
                     ('profile_latitude', LAT0), ('profile_longitude', LON0),
                     ('profile_azimuth', AZ),
                     ('profile_length', bins[nbox] - bins[0]),
                     ('sampling_rate', sr)):
            ctx.true(m + k + ' there', k in s)
            if k in s:
                ctx.eq(m + k, s[k], v)
        ctx.same(m + 'type', s.get('type'), 'profile')
        if opt:
            ctx.true(m + 'onset there', 'onset' in s)
            if 'onset' in s:
                ctx.eq(m + 'onset', s.onset - s.starttime, onset)
            ctx.same(m + 'phase', s.get('phase'), 'P')
            ctx.same(m + 'moveout', s.get('moveout'), 'Ps')
    ctx.same(l + ' type of stream', out.type if len(out) else 'profile',
             'profile')


def repeated(ctx):
    """boxes and streams may be used several times"""
    st = []
    for j in range(2):
        trs = []
        for i in range(2):
            a, b, k = position(ctx, 2 * j + i, 2, False)
            lat, lon = at(LAT0, LON0, AZ, a, b)
            trs.append((k, trace(ctx.array('d%d%d_' % (j, i), 2),
                                 'N.S..BHQ', T0 + i, 2., pp_latitude=lat,
                                 pp_longitude=lon, onset=T0 + i + 1.5)))
        st.append(trs)
    with plane(ctx):
        boxes = boxes_of(2)
        attrs = [(b['pos'], b['length']) + tuple(b['latlon']) for b in boxes]
        outs = [profile(RFStream([t[1] for t in trs]), boxes)
                for trs in (st[0], st[1], st[0])]
    for n, (trs, out) in enumerate(zip((st[0], st[1], st[0]), outs)):
        want = {}
        for i, (k, tr) in enumerate(trs):
            if k is not None:
                want.setdefault(('Q', k), []).append(i)
        check(ctx, 'call %d' % n, out, want, [snap(t[1]) for t in trs], 2,
              1.5, False, attrs, 2.)


STUBS = ['plane earth', 'polygons and projection (symbolic runs only)']


ASSUMPTIONS = [
    'real arithmetic instead of floating point (tolerance 1e-6 of the '
    'scale of the inputs)',
    'the box of a piercing point is decided by C21']


def cases(tier):
    c = [Case('stack', stack(3, 2, 2, 2, ('stream',)), '3 traces with any '
              'data and piercing points, 2 components, 2 boxes',
              stubs=STUBS, paths=20000, random=1),
         Case('order', stack(3, 2, 1, 1, order=True), '3 traces in all orders',
              stubs=STUBS, paths=20000, random=1),
         Case('sources', stack(2, 1, 2, 2, (
             'stream', 'bar', 'iterator', 'generator'), far=True,
             optional=(True, False)), '2 traces, 1 box',
             stubs=STUBS, paths=20000, random=1),
         Case('narrow boxes', stack(2, 3, 2, 1, bins=NARROW), '2 traces, 3 '
              'boxes', stubs=STUBS, random=1),
         Case('components', stack(3, 1, 2, 3, odd=True,
                                  names=(COMPS, 'Zz1')), '3 traces, 3 '
              'components, 1 box', stubs=STUBS, random=1),
         Case('repeated', repeated, '3 calls', stubs=STUBS, random=1)]
    if tier == 'thorough':
        c += [Case('stack long', stack(4, 3, 2, 3), '4 traces, 3 boxes',
                   stubs=STUBS, paths=100000, time=800),
              Case('stack 5', stack(5, 1, 3, 2), '5 traces, 1 box',
                   stubs=STUBS, paths=100000, time=400)]
    return c
