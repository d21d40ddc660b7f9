"""C04 Piercing points lie where the ray crosses the depth"""
import math
import numpy as np
import geographiclib.geodesic as gg
from rf import RFStream, simple_model
from rf.simple_model import SimpleModel
from symrf.runner import Case
from symrf import engine as E
from checks import model as M
from checks.util import T0, trace
from checks.C03 import model_file, sym_model, propagates, Z, VP, VS

KM = 111.195
FIND = 'C04-shift'


class Planar(object):
    """flat earth which replaces the geodesic library in symbolic runs"""

    def Direct(self, lat1, lon1, azi1, s12, *args, **kw):
        c = E.s_cis(azi1.radians()) if E.is_sym(azi1) else None
        if c is None:
            c = complex(math.cos(math.radians(azi1)),
                        math.sin(math.radians(azi1)))
        d = s12 / (1000 * KM)
        return {'lat1': lat1, 'lon1': lon1, 'azi1': azi1, 's12': s12,
                'lat2': lat1 + d * c.real, 'lon2': lon1 + d * c.imag,
                'azi2': azi1}


class planar(object):
    """context: flat earth if run is symbolic"""

    def __init__(self, ctx):
        self.sym = ctx.sym

    def __enter__(self):
        if self.sym:
            self.old = gg.Geodesic.WGS84
            gg.Geodesic.WGS84 = Planar()

    def __exit__(self, *a):
        if self.sym:
            gg.Geodesic.WGS84 = self.old


def expected(z, vp, vs, slow, phase, depth):
    """distance at depth; second value: known finding"""
    n = len(z) - 1
    x = M.distances(z, vp, vs, slow, phase)
    return M.interp(depth, z, x), M.interp(depth, z[:n], x[1:n + 1])


def distance(nlay, phases, double=True):
    def fn(ctx):
        phase = ctx.choice('phase', phases)
        z, vp, vs = sym_model(ctx, nlay, double)
        slow = ctx.real('slow', 0, 20)
        n = len(z) - 1
        propagates(ctx, vp, vs, slow, phase, n)
        depth = ctx.real('depth', 0, 200)
        ctx.assume(depth < z[n - 1])
        m = SimpleModel(ctx.arr(z), ctx.arr(vp), ctx.arr(vs))
        x = m.ppoint_distance(depth, slow, phase)
        want, alt = expected(z, vp, vs, slow, phase, depth)
        ctx.known_eq(FIND, 'distance ' + phase, x, want, alt, 1e-5)
    return fn


def iasp(phases, lo, hi):
    """concrete model, all depths and slownesses"""
    def fn(ctx):
        phase = ctx.choice('phase', phases)
        slow = ctx.real('slow', 3, 9)
        depth = ctx.real('depth', lo, hi)
        m = SimpleModel(np.array(Z), np.array(VP), np.array(VS))
        x = m.ppoint_distance(depth, slow, phase)
        want, alt = expected(Z, VP, VS, slow, phase, depth)
        ctx.known_eq(FIND, 'distance ' + phase, x, want, alt, 1e-5)
    return fn


def even(ctx):
    phase = ctx.choice('phase', ['PS', 'Sp', 'PPSS', 'sp', 'PP', 'ss',
                                 'PSPS'])
    depth, slow = ctx.real('depth', 0, 100), ctx.real('slow', 3, 9)
    m = SimpleModel(np.array(Z), np.array(VP), np.array(VS))
    ctx.raises('even phase', ValueError, m.ppoint_distance, depth, slow,
               phase=phase)
    stats = dict(slowness=slow, back_azimuth=10., station_latitude=1.,
                 station_longitude=2.)
    ctx.raises('even phase ppoint', ValueError, m.ppoint, stats, depth,
               phase=phase)
    ctx.raises('even phase ppoint_distance', ValueError, m.ppoint_distance,
               depth, slow, phase)


def stream(ntr, named, phases, mkind='S'):
    """RFStream.ppoints with model file"""
    def fn(ctx):
        pp = ctx.choice('pp_phase', phases)
        method = ctx.choice('method', ['P', 'S', 'PP'] if ntr == 1
                            else ['P', 'S', 'SP', 'PKS'][:4 if pp is None
                                                         else 2])
        z = [0., 0., 30., 80., 200.]
        vp = [6., 6., 7., 8., 8.]
        vs = [3., 3., 4., 4.5, 4.5]
        trs, par = [], []
        for i in range(ntr):
            p = dict(station_latitude=ctx.real('lat%d' % i, -50, 50),
                     station_longitude=ctx.real('lon%d' % i, -90, 90),
                     slowness=ctx.real('slow%d' % i, 3, 9),
                     back_azimuth=ctx.angle('baz%d' % i, 0, 360))
            par.append(p)
            trs.append(trace(np.zeros(3), 'N.S%d..BHQ' % i, phase=method,
                             type='rf', **p))
        st = RFStream(trs)
        depth = ctx.real('depth', 0, 79)
        if ctx.boolean('headers of an earlier call'):
            for tr in trs[-1:]:
                tr.stats.pp_depth = ctx.real('depth before', 0, 79)
                tr.stats.pp_latitude, tr.stats.pp_longitude = 7., 8.
                if ctx.boolean('moveout before'):
                    tr.stats.slowness_before_moveout = 7.7
                    tr.stats.moveout = 'Ps'
        kw = {} if pp is None else {'pp_phase': pp}
        with model_file(ctx, z, vp, vs, None) as fname, planar(ctx):
            if named:
                r = st.ppoints(depth, model=fname, **kw)
            else:
                leg = pp or {'P': 'S', 'S': 'P'}[method[-1]]
                model = simple_model.load_model(fname)
                r = [model.ppoint(tr.stats, depth, phase=leg) for tr in st]
        leg = pp or {'P': 'S', 'S': 'P'}[method[-1]]
        ctx.same('one row per trace', np.shape(r), (ntr, 2))
        for i, tr in enumerate(st):
            p = par[i]
            s = tr.stats
            want, alt = expected(z, vp, vs, p['slowness'], leg, depth)
            ctx.eq('pp_depth', s['pp_depth'], depth)
            ctx.eq('row %d latitude' % i, r[i][0], s['pp_latitude'])
            ctx.eq('row %d longitude' % i, r[i][1], s['pp_longitude'])
            check_point(ctx, i, p, s['pp_latitude'], s['pp_longitude'],
                        want, alt)
            for k in p:
                ctx.eq('header %s unchanged' % k, s[k], p[k])
    return fn


def check_point(ctx, i, p, lat, lon, want, alt):
    """point is at distance want in direction of back azimuth"""
    lat0, lon0 = p['station_latitude'], p['station_longitude']
    baz = p['back_azimuth']
    if ctx.sym:
        c = E.s_cis(baz.radians())
        ctx.known_eq(FIND, 'latitude %d' % i, (lat - lat0) * KM,
                     want * c.real, alt * c.real, 1e-5)
        ctx.known_eq(FIND, 'longitude %d' % i, (lon - lon0) * KM,
                     want * c.imag, alt * c.imag, 1e-5)
        return
    d = gg.Geodesic.WGS84.Inverse(lat0, lon0, lat, lon)
    dist = d['s12'] / 1000
    ctx.known_eq(FIND, 'distance %d' % i, dist, want, alt, 1e-5)
    if dist > 0.1:
        diff = (d['azi1'] - baz + 180) % 360 - 180
        ctx.eq('azimuth %d' % i, diff, 0., 1e-3)


ASSUMPTIONS = ['real arithmetic instead of floating point',
               'geographiclib solves the direct geodesic problem; symbolic '
               'runs use a flat earth instead, concrete replays the library']


def cases(tier):
    b = ('thickness 1-50 km, vp 4-9, vs 2-5 km/s, slowness 0-20 s/deg with '
         'which all waves propagate, all depths above the last layer')
    c = [Case('distance 3 layers', distance(3, ['S', 'P', 'PPS', 'Pss']), b),
         Case('distance 2 layers', distance(2, ['S', 'p', 'PPP', 'PSPSS'],
                                            False), b),
         Case('distance in 12 layers', iasp(['S', 'P', 'SPP'], 0, 450),
              'concrete model, slowness 3-9 s/deg, depth 0-450 km'),
         Case('even number of legs', even, 'slowness 3-9, depth 0-100'),
         Case('piercing points of stream', stream(2, True, [
             None, 'S', 'P', 'PPS']), '2 traces, any back azimuth, latitude '
             '-50..50, depth 0-79, slowness 3-9',
             stubs=['geodesic library: flat earth', 'numpy.loadtxt']),
         Case('piercing point of stats', stream(1, False, [
             None, 'S', 'P', 'PSS']), '1 trace',
             stubs=['geodesic library: flat earth', 'numpy.loadtxt'])]
    if tier == 'thorough':
        c += [Case('distance 6 layers', distance(6, ['S', 'P']), b, time=500),
              Case('piercing points of 3 traces', stream(3, True, [
                  None, 'S', 'P', 'PPS', 'SSS']), time=500,
                  stubs=['geodesic library: flat earth', 'numpy.loadtxt'])]
    return c
