"""C23 Harmonic decomposition recovers harmonics and pairs components"""
import random
import warnings
import numpy as np
from rf import RFStream
from rf.harmonics import decomp_one, decomp_two, harmonics
from symrf import array as A
from symrf import engine as E
from symrf.engine import SymComplex, SymReal
from symrf.runner import Case
from checks.util import T0, trace

TERMS = ['constant', 'cos', 'sin', 'cos2', 'sin2']
BAZ = [[0., 72., 144., 216., 288., 20., 130., 333.],
       [10., 15., 95., 170., 171., 260., 300., 355.],
       [359., 1., 91., 182., 47., 270., 225., 130.]]


def cis(x):
    """exp(ix) for an angle in degrees"""
    if isinstance(x, SymReal):
        return E.s_cis(x.radians())
    x = np.radians(x)
    return complex(np.cos(x), np.sin(x))


def rows(baz, azim, two, scalars=(3, 0.3)):
    """what the components look like for unit harmonics"""
    c1, c2 = cis(baz - azim), cis(2 * (baz - azim))
    cos, sin, cos2, sin2 = c1.real, c1.imag, c2.real, c2.imag
    if not two:
        return [[1., cos, sin, cos2, sin2]]
    # terms of the transverse component are rotated by 90 degrees
    return [[scalars[0], cos, sin, cos2, sin2, 0., cos, sin, cos2, sin2],
            [0., -sin, cos, -sin2, cos2, scalars[1], sin, -cos, sin2, -cos2]]


def dot(r, h):
    s = 0.
    for x, y in zip(r, h):
        s = s + x * y
    return s


def stream(bazs, data, comps, order, times=None, extra=False, travel=False):
    """data[event][component] -> samples; order of the traces

    with different travel times traces do not start in the order of the events
    """
    trs = []
    for i in range(len(bazs)):
        for c, comp in enumerate(comps):
            t = T0 + 1000 * (times[i] if times else i)
            start = t + 300 + 7 * c
            if travel:
                # several events within few minutes
                t = T0 + 100 * (times[i] if times else i)
                start = t + 300 + 130 * (i * 3 % 7) + 7 * c
            trs.append(trace(data[i][c], 'N.S..BH%s' % comp, start,
                             2., onset=start + 5, event_time=t,
                             back_azimuth=bazs[i], event_latitude=5.,
                             slowness=6. + .1 * i, phase='P', moveout='Ps'))
            if extra:
                # other components do not play a role
                trs.append(trace(1. + trs[-1].data, 'N.S..BHZ', start, 2.,
                                 onset=start + 5, event_time=t,
                                 back_azimuth=bazs[i] + 5.))
    return RFStream([trs[i] for i in order(len(trs))])


def orders(kind):
    def order(n):
        ind = list(range(n))
        if kind == 'reversed':
            return ind[::-1]
        if kind == 'components':
            return ind[::2] + ind[1::2][::-1]
        if kind != 'sorted':
            random.Random(kind).shuffle(ind)
        return ind
    return order


def labels(ctx, out, comps):
    n = 5 * len(comps)
    ctx.same('number of traces', len(out), n)
    for i, tr in enumerate(out):
        ctx.same('term %d' % i, tr.stats.get('term'), TERMS[i % 5])
        ctx.same('channel %d' % i, tr.stats.channel, str(i % 5))
        ctx.same('location %d' % i, tr.stats.location,
                 'mod' if i < 5 else 'unmod')
        ctx.same('components %d' % i, tr.stats.get('components'), comps)


class Solver(object):
    """least squares fit for symbolic back azimuths: the prescribed harmonics
    are the solution if they fulfill all equations exactly"""

    def __init__(self, candidates):
        self.cand = candidates
        self.ok = True

    def column(self, a, b):
        for h in self.cand:
            if len(h) == a.shape[1] and len(b) == a.shape[0] and all(
                    zero(dot(a[k], h) - b[k]) for k in range(len(b))):
                return h
        self.ok = False
        return [1e9] * a.shape[1]

    def __call__(self, a, b):
        if b.ndim == 1:
            x = self.column(a, b)
        else:
            x = [self.column(a, b[:, j]) for j in range(b.shape[1])]
        x = A.objarr(x).view(A.SymArray)
        return (x if b.ndim == 1 else x.T), A.objarr([]), a.shape[1], None


def zero(x):
    if isinstance(x, (SymComplex, complex)):
        return zero(x.real) and zero(x.imag)
    if isinstance(x, SymReal):
        return all(abs(float(v)) < 1e-9 for v in x.p.values())
    return abs(x) < 1e-9


def recovery(comps, nev, npts, methods, kinds):
    """harmonics are recovered for any back azimuths"""
    def fn(ctx):
        comp = ctx.choice('components', comps)
        method = ctx.choice('method', methods)
        sc = ctx.choice('scalars', [None, (1, 1), (2., .5)][
            :3 if len(comp) == 2 else 1])
        kind = ctx.choice('order', kinds)
        az = ctx.choice('azim', ['any', 0])
        two = len(comp) == 2
        n = 10 if two else 5
        bazs = [ctx.angle('baz%d' % i, 0, 360) for i in range(nev)]
        azim = ctx.angle('azim', -360, 360) if az == 'any' else 0
        h = [[ctx.real('h%d_%d' % (i, j), -5, 5) for j in range(npts)]
             for i in range(n)]
        data = []
        for b in bazs:
            data.append([ctx.arr([dot(r, [h[i][j] for i in range(n)])
                                  for j in range(npts)])
                         for r in rows(b, azim, two, sc or (3, .3))])
        st = stream(bazs, data, comp, orders(kind))
        kw = dict(components=comp, method=method)
        if sc is not None:
            kw['scalars'] = sc
        if az == 'any' or ctx.boolean('give azim'):
            kw['azim'] = azim
        if not ctx.sym and cond(bazs, azim, two, sc) > 1e4:
            # harmonics are not determined by these back azimuths
            return
        hd = [ctx.arr(v) for v in h]
        if ctx.sym:
            f = [np.fft.fft(v) for v in hd] if method == 'freq' else hd
            A.LSTSQ[0] = Solver([[v[j] for v in f] for j in range(npts)] +
                                [[v[j] for v in hd] for j in range(npts)])
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                out = harmonics(st, **kw)
        finally:
            A.LSTSQ[0] = None
        labels(ctx, out, comp)
        for i, tr in enumerate(out[:n]):
            ctx.arr_eq('harmonic %d' % i, tr.data, h[i], 1e-5)
    return fn


def cond(bazs, azim, two, sc):
    m = np.array([r for b in bazs for r in rows(b, azim, two, sc or (3, .3))])
    return np.linalg.cond(m)


def fit(comps, nev, npts, methods, kinds, bazsets, azims, extra=False):
    """normal equations hold for any data"""
    def fn(ctx):
        comp = ctx.choice('components', comps)
        method = ctx.choice('method', methods)
        kind = ctx.choice('order', kinds)
        bazs = BAZ[ctx.choice('back azimuths', bazsets)][:nev]
        azim = ctx.choice('azim', azims)
        two = len(comp) == 2
        n = 10 if two else 5
        data = [[ctx.array('d%d%s' % (i, c), npts) for c in comp]
                for i in range(nev)]
        times = [3, 0, 5, 1, 7, 2, 4, 6][:nev]
        st = stream(bazs, data, comp, orders(kind), times, extra,
                    ctx.boolean('different travel times'))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            out = harmonics(st, components=comp, method=method, azim=azim)
        labels(ctx, out, comp)
        if len(out) != n or any(len(tr.data) != npts for tr in out):
            ctx.true('number of samples', False)
            return
        J = [rows(b, azim, two) for b in bazs]
        for j in range(npts):
            h = [tr.data[j] for tr in out]
            res = [[dot(J[i][c], h) - data[i][c][j]
                    for c in range(len(comp))] for i in range(nev)]
            for k in range(n):
                g = 0.
                for i in range(nev):
                    for c in range(len(comp)):
                        g = g + J[i][c][k] * res[i][c]
                ctx.eq('normal equation %d of sample %d' % (k, j), g, 0.,
                       1e-5)
    return fn


def design(ctx):
    """design matrices for any back azimuths"""
    n = 3
    bazs = [ctx.angle('baz%d' % i, -360, 360) for i in range(n)]
    two = ctx.boolean('two')
    azim = ctx.choice('azim', ['any', 'default'])
    kw = {}
    az = 0
    if azim == 'any':
        kw['azim'] = az = ctx.angle('azim', -360, 360)
    sc = (3, .3)
    if two and ctx.boolean('scalars'):
        kw['scalars'] = sc = ctx.real('s0', 0, 5), ctx.real('s1', 0, 5)
    m = (decomp_two if two else decomp_one)(ctx.arr(bazs), **kw)
    R = [rows(b, az, two, sc) for b in bazs]
    want = [R[i][c] for c in range(2 if two else 1) for i in range(n)]
    ctx.same('shape', tuple(np.shape(m)), (len(want), len(want[0])))
    # order of the equations does not matter
    for k, r in enumerate(want):
        ctx.arr_eq('row %d' % k, m[k], r)


def refused(ctx):
    comp = ctx.choice('components', ['L', 'Z', 'TR', 'RQ', '', 'RTQ', 'TQ',
                                     'RR', 'r', 'RT', 'QT', 'R', 'Q', 'T'])
    method = ctx.choice('method', ['time', 'freq', 'Time', '', 'frequency'])
    there = ctx.choice('there', ['RTQLZ', 'RQ', 'T', 'LZ'])
    data = [[ctx.array('d%d%s' % (i, c), 2) for c in there]
            for i in range(5)]
    st = stream(BAZ[0][:5], data, there, orders('sorted'))
    good = comp in ('RT', 'QT', 'R', 'Q', 'T') and method in (
        'time', 'freq') and all(c in there for c in comp)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            harmonics(st, components=comp, method=method)
        err = None
    except Exception as ex:
        err = ex
    if good and err is not None:
        raise err
    ctx.true('accepted' if good else 'refused', (err is None) == good)
    if not good:
        ctx.true('error is not a failure of the code', isinstance(
            err, (ValueError, NotImplementedError)))


def unpaired(ctx):
    """components of different events"""
    comp = ctx.choice('components', ['RT', 'QT'])
    method = ctx.choice('method', ['time', 'freq'])
    n = 6
    data = [[ctx.array('d%d%s' % (i, c), 2) for c in comp] for i in range(n)]
    st = stream(BAZ[0][:n], data, comp, orders(ctx.choice(
        'order', ['sorted', 'components', 1])))
    # event and component which are missing
    i = ctx.integer('event', 0, n - 1)
    j = ctx.integer('other event', 0, n - 1)
    drop = {(i, comp[0])}
    if ctx.boolean('both'):
        ctx.assume(i != j)
        drop.add((j, comp[1]))
    st = RFStream([tr for tr in st if (int(round((
        tr.stats.event_time - T0) / 1000)), tr.stats.channel[-1])
        not in drop])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            harmonics(st, components=comp, method=method)
            err = None
        except Exception as ex:
            err = ex
    ctx.true('refused', isinstance(err, ValueError))


ASSUMPTIONS = [
    'real arithmetic instead of floating point (tolerance 1e-6 of the '
    'scale of the inputs)',
    'back azimuths from given sets, least squares of numpy replaced by '
    'exact normal equations']


def cases(tier):
    one, both = ['R', 'Q', 'T'], ['RT', 'QT']
    c = [Case('design', design, '3 back azimuths, any azimuth and scalars'),
         Case('recovery one', recovery(one, 6, 1, ['time'],
                                       ['sorted', 'reversed', 1]),
              '6 events with any back azimuths and harmonics'),
         Case('recovery two', recovery(both, 6, 1, ['time'],
                                       ['sorted', 'components', 1]),
              '6 events with any back azimuths and harmonics'),
         Case('recovery freq', recovery(['R', 'QT'], 6, 3, ['freq'],
                                        ['sorted', 2]),
              '6 events with any back azimuths and harmonics, 3 samples'),
         Case('fit one', fit(one, 6, 3, ['time', 'freq'],
                             ['sorted', 'reversed', 1], [0, 1], [0, 37., -50.],
                             True),
              '6 events, any data, 3 samples'),
         Case('fit two', fit(both, 7, 3, ['time', 'freq'],
                             ['sorted', 'components', 1, 2], [0, 2],
                             [0, -20.]),
              '7 events, any data, 3 samples'),
         Case('fit few', fit(['R', 'RT'], 3, 2, ['time'], ['sorted', 1],
                             [0, 1], [0]), '3 events, any data'),
         Case('refused', refused, 'supported and other arguments'),
         Case('unpaired', unpaired, '6 events, one trace of each component is '
              'missing')]
    if tier == 'thorough':
        c += [Case('fit long', fit(one + both, 8, 6, ['time', 'freq'],
                                   ['sorted', 'reversed', 1, 2, 3, 4],
                                   [0, 1, 2], [0, 45., 300.]),
                   '8 events, 6 samples', time=600),
              Case('recovery long', recovery(one + both, 12, 4,
                                             ['time', 'freq'],
                                             ['sorted', 3, 4]),
                   '12 events, 4 samples', time=600)]
    return c
