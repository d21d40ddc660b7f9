"""C21 Profile boxes tile the profile"""
import contextlib
import math
from unittest import mock
import cartopy.crs as ccrs
import geographiclib.geodesic as gg
import numpy as np
import shapely.geometry
from rf import RFStream, get_profile_boxes
from rf.profile import profile
from symrf import engine as E
from symrf.engine import SymReal, Unsupported
from symrf.runner import Case
from checks.util import T0, trace

KM = 111.2      # km per degree on the plane
STATE = {'wrap': False}


def wrap(lon):
    """longitudes between -180 and 180 as given by geographiclib"""
    if STATE['wrap']:
        if lon > 180:
            return lon - 360
        if lon < -180:
            return lon + 360
    return lon


def cis(az):
    if isinstance(az, SymReal):
        return E.s_cis(az.radians())
    az = float(az) % 360
    exact = {0: (1., 0.), 90: (0., 1.), 180: (-1., 0.), 270: (0., -1.)}
    if az in exact:
        return complex(*exact[az])
    return complex(math.cos(math.radians(az)), math.sin(math.radians(az)))


class Position(object):
    def __init__(self, lat, lon, azi):
        self.lat, self.lon, self.azi = lat, lon, azi

    def Position(self, s12, outmask=None):
        c = cis(self.azi)
        return {'lat1': self.lat, 'lon1': self.lon, 'azi1': self.azi,
                's12': s12, 'azi2': self.azi,
                'lat2': self.lat + s12 / 1000 / KM * c.real,
                'lon2': wrap(self.lon + s12 / 1000 / KM * c.imag)}


class Plane(object):
    """geodesic problem on a plane"""

    def Direct(self, lat1, lon1, azi1, s12, outmask=None):
        return Position(lat1, lon1, azi1).Position(s12)

    def Line(self, lat1, lon1, azi1, caps=None):
        return Position(lat1, lon1, azi1)

    def __getattr__(self, name):
        raise Unsupported('Geodesic.%s' % name)


class Shape(object):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('shapely: %s' % name)


class Point(Shape):
    def __init__(self, *xy):
        self.xy_ = xy if len(xy) == 2 else tuple(xy[0])

    x = property(lambda self: self.xy_[0])
    y = property(lambda self: self.xy_[1])

    def within(self, poly):
        return poly.contains(self)

    intersects = within
    covered_by = within


class Polygon(Shape):
    """convex polygon"""

    def __init__(self, corners, *args):
        self.corners = [tuple(c) for c in corners]

    @property
    def exterior(self):
        r = Shape()
        r.coords = self.corners + self.corners[:1]
        return r

    def contains(self, p):
        """boundary does not belong to the polygon"""
        n = len(self.corners)
        side = []
        for i in range(n):
            x0, y0 = self.corners[i]
            x1, y1 = self.corners[(i + 1) % n]
            x, y = p.xy_
            d = (x1 - x0) * (y - y0) - (y1 - y0) * (x - x0)
            s = 1 if d > 0 else -1 if d < 0 else 0
            if s == 0 or side and s != side[0]:
                return False
            side.append(s)
        return True

    intersects = contains
    covers = contains


class CRS(object):
    def __init__(self, *args, **kwargs):
        self.lon0 = args[0] if args else 0.

    def project_geometry(self, geometry, src_crs=None):
        """shift longitudes, lines are not split"""
        if not STATE['wrap']:
            return geometry
        if isinstance(geometry, Point):
            x, y = geometry.xy_
            return Point(wrap(x - self.lon0), y)
        x = geometry.corners[0][0]
        shift = wrap(x - self.lon0) - x
        return Polygon([(c[0] + shift, c[1]) for c in geometry.corners])

    def __getattr__(self, name):
        raise Unsupported('cartopy: %s' % name)


@contextlib.contextmanager
def plane(ctx):
    """plane earth, exact geometry of polygons if run is symbolic"""
    with contextlib.ExitStack() as stack:
        p = mock.patch.object
        stack.enter_context(p(gg.Geodesic, 'WGS84', Plane()))
        if ctx.sym:
            stack.enter_context(p(shapely.geometry, 'Polygon', Polygon))
            stack.enter_context(p(shapely.geometry, 'Point', Point))
            for name in ('AzimuthalEquidistant', 'PlateCarree'):
                stack.enter_context(p(ccrs, name, CRS))
        yield


def at(lat0, lon0, az, along, across):
    """point on the plane: along the profile and to the right of it, in km"""
    c = cis(az)
    return (lat0 + (along * c.real - across * c.imag) / KM,
            lon0 + (along * c.imag + across * c.real) / KM)


def make(ctx, n, azs, width, concrete, lons=(-30, 30)):
    """parameters of profile with n boxes"""
    lat0, lon0 = ctx.real('lat0', -20, 20), ctx.real('lon0', *lons)
    STATE['wrap'] = max(lons) > 150 or min(lons) < -150
    az = ctx.choice('azimuth', azs)
    if az == 'any':
        az = ctx.angle('az', 0, 360)
    if concrete is not None:
        bins = list(concrete)
    else:
        bins = [ctx.real('bin0', -100, 100)]
        for i in range(n):
            bins.append(bins[-1] + ctx.real('len%d' % i, 1, 100))
    kw = {}
    if width == 'any':
        kw['width'] = ctx.real('width', 1, 300)
    elif width is not None:
        kw['width'] = width
    kind = ctx.choice('bins', ['list', 'tuple', 'array'])
    b = bins if kind == 'list' else tuple(bins) if kind == 'tuple' else \
        ctx.arr(bins)
    with plane(ctx):
        boxes = get_profile_boxes((lat0, lon0), az, b, **kw)
    return lat0, lon0, az, bins, kw.get('width', 2000), boxes


def geometry(n, azs, width, concrete=None):
    """corners and attributes"""
    def fn(ctx):
        lat0, lon0, az, bins, w, boxes = make(ctx, n, azs, width, concrete)
        ctx.same('number', len(boxes), n)
        for i, box in enumerate(boxes):
            e0, e1 = bins[i], bins[i + 1]
            l = 'box %d ' % i
            got = [tuple(c) for c in box['poly'].exterior.coords][:-1]
            ctx.same(l + 'corners', len(got), 4)
            want = [at(lat0, lon0, az, a, b)[::-1] for a, b in (
                (e0, -w / 2), (e1, -w / 2), (e1, w / 2), (e0, w / 2))]
            # corners may start anywhere and have any direction
            for k, (p, q) in enumerate(zip(match(ctx, got, want), want)):
                ctx.eq(l + 'corner %d lon' % k, p[0], q[0], 1e-6)
                ctx.eq(l + 'corner %d lat' % k, p[1], q[1], 1e-6)
            ctx.eq(l + 'length', box['length'], e1 - e0)
            ctx.eq(l + 'pos', box['pos'], (e0 + e1) / 2)
            mid = at(lat0, lon0, az, (e0 + e1) / 2, 0.)
            ctx.eq(l + 'middle lat', box['latlon'][0], mid[0])
            ctx.eq(l + 'middle lon', box['latlon'][1], mid[1])
        prof = boxes[0]['profile']
        ctx.eq('latitude', prof['latlon'][0], lat0)
        ctx.eq('longitude', prof['latlon'][1], lon0)
        ctx.eq('azimuth', prof['azimuth'], az)
        ctx.eq('length', prof['length'], bins[-1] - bins[0])
        ctx.eq('width', prof['width'], w)
    return fn


def match(ctx, got, want):
    """corners in the order of the expected ones"""
    if len(got) != 4:
        return got
    best = None
    for d in (1, -1):
        for k in range(4):
            perm = [got[(k + d * j) % 4] for j in range(4)]
            e = [0.]
            for p, q in zip(perm, want):
                for x, y in zip(p, q):
                    diff = x - y
                    # differs by terms which depend on the input
                    e.append(1e3 if isinstance(diff, SymReal) and any(
                        abs(float(v)) > 1e-9 for v in diff.p.values()) else
                        0. if isinstance(diff, SymReal) else abs(diff))
            if best is None or sum(e) < best[0]:
                best = sum(e), perm
    return best[1]


def find(n, azs, width, concrete, far=400., margin=2., lons=(-30, 30)):
    """box of a point"""
    def fn(ctx):
        lat0, lon0, az, bins, w, boxes = make(ctx, n, azs, width, concrete,
                                              lons)
        a = ctx.real('along', -150, far)
        b = ctx.real('across', -far / 2, far / 2)
        if w == 2000:
            b = b * 6
        lat, lon = at(lat0, lon0, az, a, b)
        # where is the point
        inside = bool(b > -w / 2 + margin) and bool(b < w / 2 - margin)
        outside = not inside and (bool(b < -w / 2 - margin) or
                                  bool(b > w / 2 + margin))
        want = None if outside or a < bins[0] - margin or \
            a > bins[-1] + margin else -1
        if inside and want == -1:
            for i in range(n):
                if a > bins[i] + margin and a < bins[i + 1] - margin:
                    want = i
                    break
        ctx.assume(want is None or want >= 0)
        tr = trace(ctx.arr([1., 2.]), 'N.S..BHQ', T0, 1., pp_latitude=lat,
                   pp_longitude=wrap(lon), pp_depth=50.)
        with plane(ctx):
            prof = profile(RFStream([tr]), boxes)
        if want is None:
            ctx.same('no box', len(prof), 0)
        else:
            ctx.same('one box', len(prof), 1)
            if len(prof):
                ctx.eq('box', prof[0].stats.box_pos,
                       (bins[want] + bins[want + 1]) / 2)
    return fn


STUBS = ['plane earth', 'polygons and projection (symbolic runs only)']
AXES = [0, 90, 180, 270]


ASSUMPTIONS = [
    'plane geometry instead of the sphere, points near edges of boxes are '
    'left out (2 km, 45 km for any azimuth)']


def cases(tier):
    c = [Case('geometry', geometry(2, ['any'], 'any'),
              '2 boxes, any edges, width, azimuth, start', stubs=STUBS),
         Case('geometry axes', geometry(3, AXES + [360, -45, 30., 120.],
                                        'any'),
              '3 boxes, any edges and width, 8 azimuths', stubs=STUBS),
         Case('default width', geometry(1, ['any'], None),
              '1 box, any edges', stubs=STUBS),
         Case('find', find(3, ['any'], 120., (0., 100., 150., 210.)),
              '3 boxes, any point, azimuth, start', stubs=STUBS),
         Case('find boxes', find(2, AXES, 'any', None),
              '2 boxes, any edges, width, point', stubs=STUBS),
         Case('find default', find(2, [0, 90], None, (-100., 100., 300.),
                                   margin=45.),
              '2 boxes with default width, any point', stubs=STUBS),
         Case('find across antimeridian', find(
             3, [90, 250.], 120., (0., 100., 150., 210.), lons=(178, 180)),
              '3 boxes, any point, start at 178 to 180 degrees',
              stubs=STUBS),
         Case('find from antimeridian', find(
             2, [-90, 180], 120., (-50., 100., 150.), lons=(-180, -178)),
              '2 boxes, any point, start at -180 to -178 degrees',
              stubs=STUBS)]
    if tier == 'thorough':
        c += [Case('geometry long', geometry(5, ['any'], 'any'),
                   '5 boxes', stubs=STUBS, time=300),
              Case('find long', find(5, ['any'], 200., (
                  -50., 0., 100., 150., 210., 300.)), '5 boxes',
                  stubs=STUBS, time=600, paths=20000)]
    return c
