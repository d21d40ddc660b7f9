"""C06 Receiver functions of one event are independent of the others"""
import warnings
from itertools import permutations
import random
from rf import RFStream
from symrf.runner import Case
from checks.util import T0, trace

# sets: id without component, start (s), onset (s after start)
SETS = [('N.A..BH', 0, 2.), ('N.A..BH', 500, 2.), ('N.B..BH', 0, 2.),
        ('M.A..BH', 0, 3.), ('N.A.00.BH', 0, 2.), ('N.A..HH', 0, 2.),
        ('N.A..BH', 0, 1.), ('N.A..BH', 0, 1.75), ('N.A..BH', 1, 1.),
        ('N.A..BL', 0, 2.), ('N.A..B', 0, 2.)]
# source wavelets
SRC = [[.25, -1., 4., 1.5, -.5, .25, .125, 0.],
       [-.5, .75, 3., -2., 1., .5, -.25, .125],
       [0., .25, 1., 2., -1., .5, .25, -.125],
       [1., .5, -3., 1., .25, 0., -.5, .25],
       [0., 1., 2., 1., -2., 0., .25, .5],
       [.125, .5, -2., -1., 0., .25, 0., 1.],
       [.5, 2., -1., .25, 0., .125, 1., .25],
       [-.5, 1., 2., .25, -.25, .5, 0., .25],
       [1., 2., -1., .5, .25, .5, -1., .25],
       [.25, -1., 2., .5, .25, .5, -1., 1.],
       [1., -2., 3., .5, -.25, .5, -1., .25],
       [.5, 1., 3., .5, -.25, -.5, 1., .25]]


def orders(n, count, seed):
    """some orders of n traces"""
    r = random.Random(seed)
    out = [tuple(range(n)), tuple(range(n))[::-1]]
    while len(out) < count:
        p = list(range(n))
        r.shuffle(p)
        out.append(tuple(p))
    return out


def make(ctx, sets, n, comps, source, sym, line=False):
    """list of list of traces"""
    out = []
    for k in sets:
        id_, start, onset = SETS[k]
        trs = []
        for c in comps:
            if c == source or k not in sym:
                j = comps.index(c)
                d = ctx.arr([v * (1 + j) - .25 * j * i for i, v in
                             enumerate(SRC[k][j:n] + SRC[k][:n - len(
                                 SRC[k][j:n])])])
            elif line:
                a = ctx.real('%s%d' % (c, k), -3, 3)
                d = ctx.arr([a * ((i + k) % 3 - 1.) + SRC[k + 1][i]
                             for i in range(n)])
            else:
                d = ctx.array('%s%d_' % (c, k), n)
            trs.append(trace(
                d, id_ + c, T0 + start, 1., onset=T0 + start + onset,
                event_time=T0 - 300., phase='P', back_azimuth=25. + 37 * k, slowness=6. + k,
                inclination=15. + 5 * k, event_magnitude=5. + k))
        out.append(trs)
    return out


def opaque(rsp, src, tshift=None, **kw):
    """some deconvolution depending on everything it gets"""
    for i, tr in enumerate(rsp):
        tr.data = tr.data * (i + 2.) + src.data[10] * 3. + tshift
    return rsp


def rf_case(sets, n, comps, source, norders, kws, sym=None, line=False):
    def fn(ctx):
        order = ctx.choice('order', orders(len(sets) * len(comps), norders,
                                           len(sets)))
        kw = dict(ctx.choice('kw', kws))
        which = sets if sym is None else sym
        groups = make(ctx, sets, n, comps, source, which, line)
        flat = [tr for g in groups for tr in g]
        st = RFStream([flat[i].copy() for i in order])
        # the sets alone, components in the same order
        alone = []
        for k, g in enumerate(groups):
            m = len(comps)
            alone.append(RFStream([flat[i].copy() for i in order
                                   if k * m <= i < (k + 1) * m]))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            st.rf(**kw)
            for s in alone:
                s.rf(**kw)
        ctx.same('count', len(st), len(flat))
        for k, s in enumerate(alone):
            for tr in s:
                got = [t for t in st if t.id == tr.id and
                       t.stats.event_magnitude == 5. + sets[k]]
                ctx.same('trace there', len(got), 1)
                if len(got) == 1:
                    lab = 'set %d %s' % (k, tr.stats.channel)
                    ctx.arr_eq(lab, got[0].data, tr.data, 1e-6)
                    for h in ('onset', 'starttime', 'slowness', 'phase',
                              'type', 'back_azimuth'):
                        ctx.equal(lab + ' ' + h, got[0].stats.get(h),
                                  tr.stats.get(h))
    return fn


ASSUMPTIONS = [
    'real arithmetic instead of floating point (tolerance 1e-6 of the '
    'scale of the inputs)',
    'the deconvolution functions are decided by C08-C12']


def cases(tier):
    L = [0, 1], [0, 2], [3, 4], [0, 5]
    func = dict(deconvolve='func', func=opaque)
    win = dict(winsrc=(-1, 2, 1))
    time = dict(rotate=None, deconvolve='time', solve_toeplitz='scipy', **win)
    c = [Case('rotation and function', rf_case(
              [0, 1], 4, 'ZNE', None, 6, [
                  dict(rotate='ZNE->LQT', **func),
                  dict(rotate='NE->RT', **func),
                  dict(method='S', rotate='ZNE->LQT', **func)]),
              '2 events of 4 samples, 6 orders of 6 traces'),
         Case('stations and locations', rf_case(
              [0, 2, 3, 4, 5], 3, 'LQT', None, 5,
              [dict(rotate=None, **func)]),
              '5 sets of 3 samples, 5 orders of 15 traces'),
         Case('instruments', rf_case(
              [0, 9, 10], 3, 'LQT', None, 5,
              [dict(rotate=None, **func)]),
              '3 sets of 3 samples, 5 orders of 9 traces, channels which '
              'differ in the instrument code'),
         Case('similar events', rf_case(
              [0, 6, 7], 4, 'ZNE', None, 4,
              [dict(rotate='ZNE->LQT', **func), dict(
                  rotate='NE->RT', method='S', **func)]),
              '3 events of 4 samples with same start and different onset'),
         Case('no deconvolution', rf_case(
              [0, 1, 2], 3, 'ZNE', None, 4,
              [dict(rotate='ZNE->LQT', deconvolve=None)]),
              '3 sets of 3 samples'),
         Case('time', rf_case([0, 1], 5, 'LQT', 'L', 5, [
              dict(time), dict(time, normalize=None)]),
              '2 events of 5 samples, given sources'),
         Case('time normalized', rf_case([0, 1], 3, 'LQ', 'L', 4, [
              dict(time, spiking=.5, normalize=1)]),
              '2 events of 3 samples, given sources'),
         Case('waterlevel', rf_case([0, 4], 4, 'LQT', 'L', 5, [
              dict(rotate=None, deconvolve='waterlevel', winsrc=(-1, 2, 0)),
              dict(rotate=None, deconvolve='waterlevel', winsrc=(-1, 2, 0),
                   normalize=None, gauss=.3)]),
              '2 events of 4 samples, given sources'),
         Case('iterative', rf_case([0, 1], 4, 'LQ', 'L', 4, [
              dict(rotate=None, deconvolve='iterative', itmax=2,
                   normalize=None)], sym=[0], line=True),
              '2 events of 4 samples, two iterations, one parameter',
              time=40)]
    if tier == 'thorough':
        c += [Case('rotation and function 3', rf_case(
                  [0, 1, 2], 5, 'ZNE', None, 40, [
                      dict(rotate='ZNE->LQT', **func),
                      dict(rotate='NE->RT', **func)]), time=300),
              Case('time 3', rf_case([0, 1, 2], 7, 'LQT', 'L', 20, [
                  dict(time), dict(time, normalize=None)]), time=500),
              Case('iterative 2', rf_case([0, 1], 4, 'LQ', 'L', 6, [
                  dict(rotate=None, deconvolve='iterative', itmax=4)],
                  line=True), time=600)]
    return c
