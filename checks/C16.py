"""C16 rfstats stores ray parameters and filters by distance"""
import contextlib
import inspect
import os
import warnings
import numpy as np
from obspy.core import AttribDict
from obspy.geodetics import gps2dist_azimuth
from obspy.taup import TauPyModel
from rf import RFStream, rfstats
from rf.simple_model import SimpleModel
from symrf.engine import SymReal
from symrf.runner import Case
from checks.util import T0, event, everywhere, trace, snap

DEG2KM = 111.2
STATE = {}
SIG = inspect.signature(TauPyModel.get_travel_times)
SIG_PP = inspect.signature(SimpleModel.ppoint)
MODEL = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data',
                     'model.dat')


def ident(x, y):
    """is it the same value (not only for some of the inputs)"""
    if isinstance(x, SymReal) or isinstance(y, SymReal):
        if not (isinstance(x, SymReal) and isinstance(y, SymReal)):
            return False
        p, q = x.p, y.p
    else:
        p, q = {(): x}, {(): y}
    # apart from rounding of factors
    return all(abs(p.get(k, 0) - q.get(k, 0)) <= 1e-9 * (
        1 + abs(q.get(k, 0))) for k in set(p) | set(q))


def geodesic(lat1, lon1, lat2, lon2, *args, **kwargs):
    """geodesic problem with prescribed solutions"""
    x = lat1, lon1, lat2, lon2
    for pair in STATE['pairs']:
        p = pair['geo']
        if all(map(ident, x, p)):
            STATE['last'] = pair
            return pair['metres'], pair['baz'], pair['az']
        if all(map(ident, x, p[2:] + p[:2])):
            STATE['last'] = pair
            return pair['metres'], pair['az'], pair['baz']
    return -1e9, -999., -999.


class Arrival(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Model(object):
    """travel time calculation with prescribed arrivals"""

    def __init__(self, model='iasp91', *args, **kwargs):
        self.name = model

    def get_travel_times(self, *args, **kwargs):
        kw = SIG.bind(self, *args, **kwargs)
        kw.apply_defaults()
        kw = kw.arguments
        phases = kw['phase_list']
        pair = None
        if self.name == STATE['tt_model'] and list(phases) == [STATE['phase']] \
                and kw['receiver_depth_in_km'] == 0:
            for p in STATE['pairs']:
                if ident(kw['source_depth_in_km'], p['depth']) and ident(
                        kw['distance_in_degree'], p['metres'] / 1000 / DEG2KM):
                    # several ones agree only if values coincide
                    if pair is None or p is STATE.get('last'):
                        pair = p
        STATE['requests'].append(pair)
        if pair is None:
            return [Arrival(time=-1e5, incident_angle=-1e5,
                            ray_param_sec_degree=-1e5, ray_param=-1e5)]
        return list(pair['arrivals'])


def ppoint(self, *args, **kwargs):
    kw = SIG_PP.bind(self, *args, **kwargs)
    kw.apply_defaults()
    st = kw.arguments['stats']
    STATE['ppoints'].append((len(self.z), kw.arguments['depth'],
                             kw.arguments['phase'], st['slowness'],
                             st['back_azimuth'], st['station_latitude'],
                             st['station_longitude']))
    st['pp_depth'] = kw.arguments['depth']
    st['pp_latitude'] = n = 1000. + len(STATE['ppoints'])
    st['pp_longitude'] = n + 1000
    return n, n + 1000


@contextlib.contextmanager
def world(tt_model, phase, pairs):
    STATE.clear()
    STATE.update(tt_model=tt_model, phase=phase, pairs=pairs, requests=[],
                 ppoints=[])
    orig = SimpleModel.ppoint
    SimpleModel.ppoint = ppoint
    try:
        with everywhere((gps2dist_azimuth, geodesic), (TauPyModel, Model)):
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                yield
    finally:
        SimpleModel.ppoint = orig


def pair(ctx, i, narr, metres=None):
    """event-station pair with any distance, azimuth and arrivals"""
    n = str(i)
    # ranges of different pairs are disjoint
    p = {'sta': (ctx.real('slat' + n, -90 + 30 * i, -61 + 30 * i), ctx.real('slon' + n, -180, 180),
                 ctx.real('sele' + n, -100, 8000)),
         'ev': (ctx.real('elat' + n, -90, 90), ctx.real('elon' + n, -180, 180)),
         'metres': ctx.real('metres' + n, 0, 2e7) if metres is None
         else metres,
         'baz': ctx.real('baz' + n, 0, 360), 'az': ctx.real('az' + n, 0, 360),
         'depth': ctx.real('depth' + n, 0, 700),
         'mag': ctx.real('mag' + n, -1, 9),
         'time': ctx.utc(ctx.real('time' + n, -1000, 1000))}
    p['geo'] = p['sta'][:2] + p['ev']
    p['deg'] = p['metres'] / 1000 / DEG2KM
    p['arrivals'] = []
    last = 0
    for k in range(narr):
        m = n + '_%d' % k
        last = last + ctx.real('tt' + m, 0, 900)
        rp = ctx.real('rp' + m, 100, 1000)
        p['arrivals'].append(Arrival(
            time=last, incident_angle=ctx.real('inc' + m, 0, 90),
            takeoff_angle=ctx.real('takeoff' + m, 0, 90),
            ray_param=rp, ray_param_sec_degree=rp * (np.pi / 180)))
    return p


def ev_head(p):
    return dict(event_latitude=p['ev'][0], event_longitude=p['ev'][1],
                event_depth=p['depth'], event_time=p['time'],
                event_magnitude=p['mag'], event_id='smi:local/stats')


def sta_head(p):
    return dict(zip(('station_latitude', 'station_longitude',
                     'station_elevation'), p['sta']))


def ev_obj(ctx, p):
    # event depth is given in metres
    return event(ctx, {'latitude': p['ev'][0], 'longitude': p['ev'][1],
                       'depth': p['depth'] * 1000, 'time': p['time']},
                 {'mag': p['mag']})


def sta_obj(p):
    return dict(zip(('latitude', 'longitude', 'elevation'), p['sta']))


def check_stats(ctx, l, stats, p, phase):
    arr = p['arrivals'][0]
    for k, v in sorted(list(sta_head(p).items()) + list(ev_head(p).items())):
        if k != 'event_id':
            ctx.true('%s %s is there' % (l, k), k in stats)
            if k in stats:
                ctx.equal('%s %s' % (l, k), stats[k], v)
    for k, v in (('distance', p['deg']), ('back_azimuth', p['baz']),
                 ('inclination', arr.incident_angle),
                 ('slowness', arr.ray_param_sec_degree)):
        ctx.true('%s %s is there' % (l, k), k in stats)
        if k in stats:
            ctx.eq('%s %s' % (l, k), stats[k], v)
    ctx.true('%s onset is there' % l, 'onset' in stats)
    if 'onset' in stats:
        ctx.eq('%s onset' % l, stats['onset'] - p['time'], arr.time)
    ctx.same('%s phase' % l, stats.get('phase'), phase)


def check_pp(ctx, l, stats, p, i, depth, phase, nz):
    """i-th piercing point"""
    ctx.true('%s piercing point' % l, i < len(STATE['ppoints']))
    if i < len(STATE['ppoints']):
        z, d, ph, slow, baz, lat, lon = STATE['ppoints'][i]
        ctx.same(l + ' pp model', z, nz)
        ctx.eq(l + ' pp depth', d, depth)
        ctx.same(l + ' pp phase', ph.upper(), phase)
        ctx.eq(l + ' pp slowness', slow, p['arrivals'][0].ray_param_sec_degree)
        ctx.eq(l + ' pp back azimuth', baz, p['baz'])
        ctx.eq(l + ' pp latitude', lat, p['sta'][0])
        ctx.eq(l + ' pp longitude', lon, p['sta'][1])
        ctx.equal(l + ' pp_depth', stats.get('pp_depth'), depth)
        ctx.equal(l + ' pp_latitude', stats.get('pp_latitude'), 1001. + i)


# headers set by an earlier call
EARLIER = dict(onset=T0, slowness=1., distance=70., back_azimuth=1.,
               inclination=2., phase='PcP')
LIMITS = {'P': (30, 90), 'S': (50, 85)}


def window(ctx, rng, phase):
    """value of dist_range, (min, max) or None if all or 'error'"""
    if rng == 'default':
        if phase.upper() in LIMITS:
            return 'default', LIMITS[phase.upper()]
        return 'default', 'error'
    if rng == 'symbolic':
        lo, hi = ctx.real('min', 0, 180), ctx.real('max', 0, 180)
        return (lo, hi), (lo, hi)
    if rng == 'list':
        return [0, 120], (0, 120)
    return rng, None


def expected(lim, p):
    """is the distance within the interval (decides on the path)"""
    if lim is None:
        return True
    return bool(lim[0] <= p['deg']) and bool(p['deg'] <= lim[1])


def one(forms, phases, ranges, narrs, pps=(None,), metres=(None,)):
    def fn(ctx):
        form = ctx.choice('form', forms)
        phase = ctx.choice('phase', phases)
        rng = ctx.choice('range', ranges)
        narr = ctx.choice('arrivals', narrs)
        pp = ctx.choice('pp', pps)
        tt = ctx.choice('tt model', ['iasp91', 'ak135'])
        m = ctx.choice('metres', metres)
        p = pair(ctx, 0, narr, m)
        old = pair(ctx, 1, 1)
        value, lim = window(ctx, rng, phase)
        kw = {}
        if value != 'default' or ctx.boolean('give default'):
            kw['dist_range'] = value
        if phase != 'P' or ctx.boolean('give phase'):
            kw['phase'] = phase
        if tt != 'iasp91':
            kw['tt_model'] = tt
        nz = None
        if pp is not None:
            kw['pp_depth'] = depth = pp[0] if pp[0] == 0 else \
                ctx.real('ppdepth', 0, 800)
            if pp[1]:
                kw['pp_phase'] = pp[1]
            if pp[2]:
                kw['model'] = pp[2]
            nz = len(SimpleModelZ(pp[2]))
        ev, sta = ev_obj(ctx, p), sta_obj(p)
        obj = None
        if form == 'objects':
            kw.update(event=ev, station=sta)
        elif form == 'stats':
            obj = AttribDict(sta_head(p), extra=5, **ev_head(p))
        elif form == 'trace':
            obj = trace(np.array([1., 2.]), extra=5, **dict(sta_head(p),
                                                  **ev_head(p))).stats
        elif form == 'station in stats':
            obj = AttribDict(sta_head(p), extra=5)
            kw.update(event=ev)
        elif form == 'event in stats':
            obj = AttribDict(ev_head(p), extra=5)
            kw.update(station=sta)
        elif form == 'other values in stats':
            obj = AttribDict(sta_head(old), extra=5, **dict(ev_head(old),
                                                            **EARLIER))
            kw.update(event=ev, station=sta)
        elif form == 'other event in stats':
            obj = AttribDict(sta_head(p), extra=5, **ev_head(old))
            kw.update(event=ev)
        res, err = None, None
        with world(tt, phase, [p]):
            try:
                if obj is None:
                    res = rfstats(**kw)
                else:
                    res = rfstats(obj, **kw)
            except Exception as ex:
                err = ex
        if lim == 'error':
            ctx.true('missing default is refused',
                     isinstance(err, ValueError))
            return
        if not expected(lim, p):
            ctx.true('outside: no error', err is None)
            ctx.true('outside: None', res is None)
            return
        if narr == 0:
            ctx.true('no arrival is an error', err is not None)
            ctx.true('error is not a failure of the code', not isinstance(
                err, (IndexError, TypeError, AttributeError, KeyError)))
            return
        if err is not None:
            raise err
        ctx.true('inside: stats', res is not None)
        if res is None:
            return
        if obj is not None:
            ctx.true('same stats object', res is obj)
            ctx.same('other headers', res.get('extra'), 5)
        check_stats(ctx, 'stats', res, p, phase)
        ctx.true('travel times requested', len(STATE['requests']) >= 1 and
                 all(r is p for r in STATE['requests']))
        if pp is None:
            ctx.true('no piercing point', not STATE['ppoints'] and
                     'pp_depth' not in res)
        else:
            leg = pp[1] or ('S' if phase.upper()[-1] == 'P' else 'P')
            check_pp(ctx, 'stats', res, p, 0, depth, leg, nz)
    return fn


def SimpleModelZ(model):
    from rf.simple_model import load_model
    return load_model(model or 'iasp91').z


def many(ntr, phases, ranges, pps, narrs=(1, 2), forms=('own',)):
    """streams"""
    def fn(ctx):
        phase = ctx.choice('phase', phases)
        rng = ctx.choice('range', ranges)
        pp = ctx.choice('pp', pps)
        form = ctx.choice('form', forms)
        pairs, trs = [], []
        for i in range(ntr):
            p = pair(ctx, i, ctx.choice('arrivals%d' % i, narrs))
            if form == 'event' and i > 0:
                p['ev'], p['depth'], p['time'], p['mag'] = [
                    pairs[0][k] for k in ('ev', 'depth', 'time', 'mag')]
                p['geo'] = p['sta'][:2] + p['ev']
            h = dict(sta_head(p))
            if form == 'own':
                h.update(ev_head(p))
            if i == 0:
                h.update(EARLIER)
            pairs.append(p)
            trs.append(trace(ctx.array('d%d_' % i, 2), 'N.S%d..BHZ' % i,
                             T0 + i, 1., extra=i, **h))
        value, lim = window(ctx, rng, phase)
        kw = {'phase': phase}
        if value != 'default':
            kw['dist_range'] = value
        if pp is not None:
            kw['pp_depth'] = depth = ctx.real('ppdepth', 0, 800)
            if pp[1]:
                kw['pp_phase'] = pp[1]
        if form == 'event':
            kw['event'] = ev_obj(ctx, pairs[0])
        st = RFStream(trs)
        before = [snap(tr) for tr in trs]
        err = None
        with world('iasp91', phase, pairs):
            try:
                res = rfstats(st, **kw)
            except Exception as ex:
                err = ex
        if lim == 'error':
            ctx.true('missing default is refused',
                     isinstance(err, ValueError))
            return
        inside = [expected(lim, p) for p in pairs]
        missing = any(ins and not p['arrivals']
                      for ins, p in zip(inside, pairs))
        if missing:
            ctx.true('no arrival is an error', err is not None)
            return
        if err is not None:
            raise err
        ctx.true('stream is returned', res is st)
        ctx.same('traces within distance', [tr.id for tr in st],
                 [tr.id for tr, ins in zip(trs, inside) if ins])
        j = 0
        for i in range(ntr):
            if not inside[i]:
                continue
            if j >= len(st):
                break
            tr = st[j]
            l = 'trace %d' % i
            ctx.true(l + ' is the same', tr is trs[i])
            ctx.arr_eq(l + ' data', tr.data, before[i][0])
            ctx.same(l + ' header', tr.stats.get('extra'), i)
            check_stats(ctx, l, tr.stats, pairs[i], phase)
            if pp is not None:
                leg = pp[1] or ('S' if phase.upper()[-1] == 'P' else 'P')
                check_pp(ctx, l, tr.stats, pairs[i], j, depth, leg,
                         len(SimpleModelZ(None)))
            j += 1
    return fn


def again(ctx):
    """two calls one after another in the same process"""
    ph = [ctx.choice('phase%d' % i, ['P', 'S', 'PP']) for i in range(2)]
    tt = [ctx.choice('tt model %d' % i, ['iasp91', 'ak135', 'prem'][:2 + i])
          for i in range(2)]
    same = ctx.boolean('same stats')
    pairs = [pair(ctx, i, 1) for i in range(2)]
    obj = AttribDict()
    for i in range(2):
        if not same:
            obj = AttribDict()
        p = pairs[i]
        with world(tt[i], ph[i], [p]):
            res = rfstats(obj, event=ev_obj(ctx, p), station=sta_obj(p),
                          phase=ph[i], tt_model=tt[i], dist_range=None)
            ctx.true('call %d travel times' % i, len(STATE['requests']) >= 1
                     and all(r is p for r in STATE['requests']))
        ctx.true('same stats object', res is obj)
        check_stats(ctx, 'call %d' % i, obj, p, ph[i])


STUBS = ['gps2dist_azimuth: any distances and azimuths',
         'TauPyModel: any arrivals', 'SimpleModel.ppoint: recorded']
FORMS = ['objects', 'stats', 'trace', 'station in stats', 'event in stats',
         'other values in stats', 'other event in stats']
PP = [(1, None, None), (1, 'P', None), (1, 'PPS', MODEL), (0, 'S', None)]
EDGES = [30 * 111200., 90 * 111200., 50 * 111200., 85 * 111200., 0.,
         180 * 111200., 29.99 * 111200, 90.01 * 111200]


ASSUMPTIONS = [
    'travel times and distances of obspy are arbitrary (C27 is not '
    'claimed)',
    'depths between 0 and 700 km']


def cases(tier):
    pph = ['P', 'S', 'PP', 'PKP', 'SKS', 'p', 's', 'PS', 'SP']
    rngs = ['default', 'symbolic', None, (), 'list']
    c = [
        Case('phases and ranges', one(['objects', 'stats'], pph, rngs, [1, 2]),
             'any distance and interval', stubs=STUBS, paths=20000),
        Case('forms', one(FORMS, ['P', 'S', 'PP'],
                          ['default', 'symbolic', None], [0, 1, 2]),
             'all forms of arguments', stubs=STUBS, paths=20000),
        Case('two calls', again, 'two calls with any of 3 models and phases, '
             'all values symbolic', stubs=STUBS, paths=20000),
        Case('piercing points', one(['objects', 'stats'], pph,
                                    ['symbolic', None], [1], PP),
             'any depth of the piercing point', stubs=STUBS, paths=20000),
        Case('end points', one(['objects'], ['P', 'S'], ['default', 'list'],
                               [1], (None,), EDGES), 'distances at the end '
             'points of the default intervals', stubs=STUBS),
        Case('stream', many(3, ['P', 'S'], ['default', 'symbolic'],
                            [None, PP[0]], (1,)), '3 traces',
             stubs=STUBS, paths=20000),
        Case('stream forms', many(2, ['P', 'SKS', 'PP'],
                                  ['default', 'symbolic', None],
                                  [None, PP[0]], (0, 1, 2),
                                  ('own', 'event')), '2 traces',
             stubs=STUBS, paths=20000)]
    if tier == 'thorough':
        c += [Case('stream long', many(
                  5, ['P', 'S', 'PP'], ['default', 'symbolic', None],
                  [None, PP[0], PP[1]], (1,), ('own', 'event')),
                  '5 traces', stubs=STUBS, paths=50000, time=500),
              Case('all', one(FORMS, pph, rngs, [0, 1, 2],
                              [None] + PP), 'all combinations',
                   stubs=STUBS, paths=100000, time=800)]
    return c
