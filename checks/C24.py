"""C24 Plots draw every trace to scale and do not change the data"""
import os
import numpy as np
from shapely.geometry import Polygon
from rf import RFStream
from rf.imaging import (plot_harmonics, plot_ppoints, plot_profile,
                        plot_profile_map, plot_rf, plot_stations)
from rf.simple_model import load_model
from symrf.runner import Case
from checks.canvas import drawing, same_color
from checks.util import T0, trace, snap, unchanged

MODEL = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'data',
                     'model.dat')
C = ('#ff0000', '#0000ff')


def absmax(ctx, datas):
    """largest amplitude which is not negligible"""
    m = None
    for d in datas:
        for v in d:
            v = abs(v)
            m = v if m is None or v > m else m
    ctx.assume(m > 0.1)
    return m


def samples(ctx, name, i, n, largest):
    """any samples or, if largest is given, the spike of trace i is larger
    than its other samples and the spike of the trace largest is the largest

    There are less cases to distinguish for the second kind.
    """
    if largest is None:
        return ctx.array('%s%d_' % (name, i), n)
    d = [ctx.real('%s%d_%d' % (name, i, j), -.9, .9) for j in range(n)]
    j = (i + largest) % n if n < 5 else 2 + (i + largest) % 2
    r = 1 + 3 * i % 10 * .4
    lim = (6, 10) if i == largest else (r, r + .3)
    d[j] = ctx.real('%s%d_spike' % (name, i), *lim) * (-1) ** (
        (i + largest // 2) % 2)
    return ctx.arr(d)


def line(ctx, label, got, x, y, scale=1.):
    """statement: a line is drawn along the points (x, y / scale)"""
    ctx.same(label + ' samples', (len(got[0]), len(got[1])), (len(x), len(y)))
    for j, (a, b) in enumerate(zip(x, y)):
        if j < len(got[0]):
            ctx.eq('%s x%d' % (label, j), got[0][j], a, 1e-6)
            ctx.eq('%s y%d' % (label, j), got[1][j] * scale, b, 1e-6)


def inside(ctx, label, lim, values):
    lo, hi = lim
    ctx.true(label + ' limits', hi > lo if len(values) > 1 else hi >= lo)
    for j, v in enumerate(values):
        ctx.le('%s %d above lower limit' % (label, j), lo, v, 1e-6)
        ctx.le('%s %d below upper limit' % (label, j), v, hi, 1e-6)


def filled(ctx, label, views, colors, d, base, along):
    """statement: positive and negative wiggles are filled by own colors

    :param d: samples, base: position of the trace
    """
    for k, color in enumerate(colors):
        fills = [f for f in views.fills if color is not None and
                 f['color'] is not None and same_color(f['color'], color)]
        if color is None:
            continue
        if ctx.sym:
            own = [f for f in fills if all(
                bool(ctx_eq(b, base)) for b in f['c2'])]
            ctx.same('%s filled %d' % (label, k), len(own), 1)
            if len(own) != 1:
                continue
            ctx.same(label + ' fill along', own[0]['along'], along)
            for j, w in enumerate(own[0]['where']):
                if d[j] > 1e-6:
                    ctx.true('%s filled %d sample %d' % (label, k, j),
                             bool(w) == (k == 0))
                elif d[j] < -1e-6:
                    ctx.true('%s filled %d sample %d' % (label, k, j),
                             bool(w) == (k == 1))
        else:
            i = 1 if along == 'x' else 0
            top = [p[:, i].max() - base for f in fills for p in f['paths']]
            low = [p[:, i].min() - base for f in fills for p in f['paths']]
            # two consecutive samples of the same sign have to be filled
            s = 1 if k == 0 else -1
            if any(s * d[j] > 1e-3 and s * d[j + 1] > 1e-3
                   for j in range(len(d) - 1)):
                near = [t for t, b in zip(top, low)
                        if abs(b if k == 0 else t) < 1e-6]
                ctx.true('%s filled %d' % (label, k), len(near) > 0)


def ctx_eq(a, b):
    d = a - b
    return abs(float(d)) < 1e-9 if not hasattr(d, 'p') else \
        all(abs(float(v)) < 1e-9 for v in d.p.values())


def rf_stream(ctx, ntr, npts, sr, aligned=True, ids=1, odd=False, lo=-.9,
              hi=1.4, spikes=False):
    trs = []
    largest = ctx.choice('largest', list(range(ntr))) if spikes else None
    onset = ctx.real('onset', lo, hi)
    for i in range(ntr):
        o = onset if aligned else ctx.real('onset%d' % i, -1.5, 3)
        start = T0 + 1000 * i
        trs.append(trace(samples(ctx, 'd', i, npts + (odd and i), largest),
                         'N.S%s..BHQ' % (i if ids > 1 else ''), start, sr,
                         onset=start + o, back_azimuth=ctx.real(
                             'baz%d' % i, 0, 360), distance=ctx.real(
                             'dist%d' % i, 30, 90), slowness=6.4,
                         phase='P', type='rf', other=ctx.real(
                             'other%d' % i, 400, 500)))
    return RFStream(trs)


def times(tr):
    return [k * tr.stats.delta - (tr.stats.onset - tr.stats.starttime)
            for k in range(len(tr.data))]


def within(ctx, t, trim, delta):
    """indices of samples in the window

    Windows are aligned to the nearest sample or to the next sample inside of
    the window, both give the same samples here.
    """
    keep = []
    for j, v in enumerate(t):
        if v > trim[0]:
            if v < trim[1]:
                keep.append(j)
            else:
                ctx.assume(v > trim[1] + .51 * delta)
        else:
            ctx.assume(v < trim[0] - .51 * delta)
    return keep


INFOS = {'default': (('back_azimuth', 'baz (°)'), ('distance', 'dist (°)')),
         'one': (('other', 'OTHER'),), 'None': (), 'empty': (),
         'two': (('other', 'OTHER'), ('back_azimuth', 'BAZ'))}


def allpoints(v):
    """points drawn with scatter or plot"""
    return list(v.points) + [p for ln in v.lines for p in zip(*ln)]


def rfs(ntr, npts, sr=2., aligned=True, ids=1, odd=False, infos=('default',),
        scales=(True, False), show=(True,), fills=(False,), fnames=(None,),
        trims=(None,), lo=-.9, hi=1.4, spikes=False):
    def fn(ctx):
        st = rf_stream(ctx, ntr, npts, sr, aligned, ids, odd, lo, hi, spikes)
        trace_scale = ctx.choice('trace_scale', scales)
        info = ctx.choice('info', infos)
        show_traces = ctx.choice('show_traces', show)
        fill = ctx.choice('fillcolors', fills)
        fname = ctx.choice('fname', fnames)
        trim = ctx.choice('trim', trims)
        kw = {}
        f = 1.
        if ctx.boolean('give scale_factor'):
            kw['scale_factor'] = f = ctx.real('scale_factor', .2, 4)
        if trace_scale:
            kw['trace_scale'] = True
        if fill:
            kw['fillcolors'] = fill
        if info == 'None':
            kw['info'] = None
        elif info == 'empty':
            kw['info'] = ()
        elif info != 'default':
            kw['info'] = [list(v) + ['C2'] for v in INFOS[info]]
        if not show_traces:
            kw['show_traces'] = False
        if ctx.boolean('vlines') if fill or not show_traces else False:
            kw['show_vlines'] = True
        if trim:
            kw['trim'] = trim
        before = [snap(tr) for tr in st]
        data, xs = [], []
        for tr in st:
            t = times(tr)
            d = list(tr.data)
            if trim:
                keep = within(ctx, t, trim, tr.stats.delta)
                t, d = [t[j] for j in keep], [d[j] for j in keep]
                if len(d) < 2:
                    return
            xs.append(t)
            data.append(d)
        maxs = [absmax(ctx, [d]) for d in data] if trace_scale else \
            [absmax(ctx, data)] * ntr
        with drawing(ctx) as canvas:
            fig = plot_rf(st, fname, **kw) if fname else plot_rf(st, **kw)
            if fname is not None:
                ctx.true('figure is not returned', fig is None)
                ctx.same('saved', [n for _, n in canvas.saved], [fname])
                if len(canvas.saved) != 1:
                    return
                fig = canvas.saved[0][0]
                ctx.true('figure is closed', not canvas.is_open(fig))
            else:
                ctx.true('figure is left open', canvas.is_open(fig))
                ctx.same('nothing saved', canvas.saved, [])
            views = canvas.views(fig)
        unchanged(ctx, 'stream', before, st, True)
        lab = dict(INFOS[info]) if show_traces else {}
        main = [v for v in views if v.xlabel == 'time (s)']
        hdr = [v for v in views if v.xlabel in lab.values()]
        rest = [v for v in views if v not in main and v not in hdr]
        ctx.same('axes for traces', len(main), int(show_traces))
        ctx.same('axes for headers', sorted(v.xlabel for v in hdr),
                 sorted(lab.values()))
        stackable = ids == 1 and not odd
        ctx.same('axes for stack', len([v for v in rest if v.lines]),
                 int(stackable))
        for v in main:
            ctx.same('number of traces', len(v.lines), ntr)
            got = sorted(v.lines, key=lambda ln: 0) if len(
                v.lines) == ntr else []
            for i, ln in enumerate(got):
                line(ctx, 'trace %d' % i, ln, xs[i], [
                    x * f + (i + 1) * maxs[i] for x in data[i]], maxs[i])
                inside(ctx, 'times %d' % i, v.xlim, xs[i])
                inside(ctx, 'position %d' % i, v.ylim, [i + 1])
                if fill:
                    filled(ctx, 'trace %d' % i, v, fill, data[i], i + 1, 'x')
        for v in hdr:
            key = [k for k in lab if lab[k] == v.xlabel][0]
            pts = allpoints(v)
            ctx.same('number of points for ' + key, len(pts), ntr)
            line(ctx, key, list(zip(*pts)) or [(), ()], [tr.stats[key] for tr in st],
                 list(range(1, ntr + 1)))
        for v in [v for v in rest if v.lines][:1]:
            n = float(ntr)
            ctx.same('lines for stack', len(v.lines), 1)
            line(ctx, 'stack', v.lines[0], xs[0],
                 [sum(d) / n for d in zip(*data)])
            if not show_traces:
                inside(ctx, 'times of stack', v.xlim, xs[0])
            if fill:
                filled(ctx, 'stack', v, fill, [sum(d) for d in zip(*data)],
                       0, 'x')
    return fn


def profiles(ntr, npts, sr=2., fills=('default',), tops=(None,),
             models=(None,), fnames=(None,), trims=(None,), phases=('Ps',),
             slow=False, spikes=False, shift=0.):
    def fn(ctx):
        largest = ctx.choice('largest', list(range(ntr))) if spikes else None
        onset = ctx.real('onset', *((.55, 1.2) if trims[0] else (-.9, 1.4)))
        fill = ctx.choice('fillcolors', fills)
        top = ctx.choice('top', tops)
        fname = ctx.choice('fname', fnames)
        trim = ctx.choice('trim', trims)
        model = ctx.choice('model', models)
        phase = ctx.choice('phase', phases)
        slowness = ctx.real('slowness', 4, 8) if slow else 6.4
        trs = []
        for i in range(ntr):
            start = T0 + 1000 * i
            trs.append(trace(
                samples(ctx, 'd', i, npts, largest), 'N.S%d..BHQ' % i, start,
                sr,
                onset=start + onset + i * shift,
                box_pos=ctx.real('pos%d' % i, 0, 500),
                box_length=ctx.real('len%d' % i, 5, 30), num=ctx.real(
                    'num%d' % i, 1, 50), slowness=slowness, phase=phase[0],
                moveout=phase, type='profile'))
        st = RFStream(trs)
        kw = {}
        scale = 1.
        if ctx.boolean('give scale'):
            kw['scale'] = scale = ctx.real('scale', .2, 4)
        colors = ('C3', 'C0')
        if fill != 'default':
            kw['fillcolors'] = colors = fill
        if top:
            kw['top'] = top
        if trim:
            kw['trim'] = trim
        if model != 'default':
            kw['moveout_model'] = model
        before = [snap(tr) for tr in st]
        data = [list(tr.data) for tr in st]
        ts = [times(tr) for tr in st]
        if trim:
            keep = within(ctx, ts[0], trim, 1 / sr)
            if len(keep) < 2:
                return
            ts = [[t[j] for j in keep] for t in ts]
            data = [[d[j] for j in keep] for d in data]
        m = absmax(ctx, data)
        width = trs[0].stats.box_length
        for tr in trs[1:]:
            if tr.stats.box_length < width:
                width = tr.stats.box_length
        with drawing(ctx) as canvas:
            fig = st.plot_profile(fname, **kw) if fname else \
                plot_profile(st, **kw)
            if fname is not None:
                ctx.true('figure is not returned', fig is None)
                ctx.same('saved', [n for _, n in canvas.saved], [fname])
                if len(canvas.saved) != 1:
                    return
                fig = canvas.saved[0][0]
                ctx.true('figure is closed', not canvas.is_open(fig))
            else:
                ctx.true('figure is left open', canvas.is_open(fig))
                ctx.same('nothing saved', canvas.saved, [])
            views = canvas.views(fig)
        unchanged(ctx, 'stream', before, st, True)
        main = [v for v in views if v.xlabel == 'distance (km)']
        ctx.same('axes for traces', len(main), 1)
        if len(main) != 1:
            return
        v = main[0]
        ctx.same('number of traces', len(v.lines), ntr)
        if len(v.lines) != ntr:
            return
        # time increases downwards
        down = v.ylim[::-1]
        for i, tr in enumerate(trs):
            pos = tr.stats.box_pos
            line(ctx, 'trace %d' % i, v.lines[i][::-1], ts[i],
                 [pos * m + scale * d * width for d in data[i]], m)
            if not shift:
                inside(ctx, 'times %d' % i, down, ts[i])
            inside(ctx, 'positions %d' % i, v.xlim, [
                pos] + ([x for x in v.lines[i][0]] if ntr == 1 else []))
            filled(ctx, 'trace %d' % i, v, colors,
                   [d * scale for d in data[i]], pos, 'y')
        bars = [b for w in views for b in w.bars]
        ctx.same('bars', len(bars), ntr if top == 'hist' else 0)
        if len(bars) == ntr and top == 'hist':
            for tr, (left, w, bottom, height) in zip(trs, bars):
                s = tr.stats
                ctx.eq('left edge of bar', left, s.box_pos - s.box_length / 2,
                       1e-6)
                ctx.eq('width of bar', w, s.box_length, 1e-6)
                ctx.eq('bottom of bar', bottom, 0.)
                ctx.eq('height of bar', height, s.num)
        depth = [w for w in views if w.ylabel == 'depth (km)']
        ctx.same('depth axes', len(depth), int(model is not None))
        if len(depth) == 1 and model is not None:
            w = depth[0]
            for k in range(2):
                ctx.eq('limits of depth axes %d' % k, w.ylim[k], v.ylim[k])
            labels = w.ticks.get('ylabels', [])
            ctx.same('depths', len(labels), len(w.ticks.get('y', [])))
            ctx.true('depths there', len(labels) > 3)
            mod = load_model('iasp91' if model == 'default' else model)
            for lab, tick in zip(labels, w.ticks.get('y', [])):
                z = float(lab)
                if z <= mod.z[-1]:
                    ctx.eq('time of depth ' + lab, tick,
                           delay(ctx, mod, z, slowness, phase), 1e-3)
    return fn


def delay(ctx, mod, z, slowness, phase):
    """delay time of converted wave from depth z"""
    p = slowness / 111.2
    t = 0.
    for k in range(len(mod.z) - 1):
        top, bottom = mod.z[k], mod.z[k + 1]
        if top >= z:
            break
        frac = (min(z, bottom) - top)
        if frac == 0:
            continue
        # layer k reaches from z[k] to z[k + 1]
        qs = np.sqrt(mod.vs[k] ** -2. - p ** 2)
        qp = np.sqrt(mod.vp[k] ** -2. - p ** 2)
        n = {'Ppps': (1, 1), 'Ppss': (2, 0)}.get(phase, (1, -1))
        t = t + frac * (n[0] * qs + n[1] * qp)
    return t


def harm(npts, sr=2., kinds=('one', 'two', 'other', 'both'), fills=(False,),
         trims=(None,)):
    def make(ctx, name, two, npts):
        n = 10 if two else 5
        # (for the first set the second one has less cases)
        largest = ctx.choice('largest ' + name, [0, 3, 4, 7, 9] if two else
                             [0, 3] if name == 'R' else [1])
        onset = ctx.real(name + 'onset', *(
            (.87, 1.2) if trims[0] else (-.9, 1.4)))
        return RFStream([trace(
            samples(ctx, name, i, npts, largest), 'N.S.%s.%d' % (
                'mod' if i < 5 else 'unmod', i % 5), T0, sr,
            onset=T0 + onset, phase='P', moveout='Ps', type='harmonic',
            components='RT' if two else name) for i in range(n)])

    def fn(ctx):
        kind = ctx.choice('kind', kinds)
        fill = ctx.choice('fillcolors', fills)
        trim = ctx.choice('trim', trims)
        hd = make(ctx, 'R', kind in ('two', 'both'), npts)
        hd2 = make(ctx, 'T', False, npts + 1) if kind in ('other', 'both') \
            else None
        kw = {}
        if fill:
            kw['fillcolors'] = fill
        if trim:
            kw['trim'] = trim
        if hd2 is not None:
            kw['hd2'] = hd2
        before = [snap(tr) for tr in hd]
        before2 = [snap(tr) for tr in hd2 or []]
        cut = {}
        for tr in hd.traces + (hd2.traces if hd2 is not None else []):
            t, d = times(tr), list(tr.data)
            if trim:
                keep = within(ctx, t, trim, 1 / sr)
                t, d = [t[j] for j in keep], [d[j] for j in keep]
                if len(d) < 2:
                    return
            cut[id(tr)] = t, d
        m = absmax(ctx, [cut[id(tr)][1] for tr in hd])
        if hd2 is not None:
            m2 = absmax(ctx, [cut[id(tr)][1] for tr in hd2])
            right = hd2
        else:
            m2 = m
            right = hd[5:]
        with drawing(ctx) as canvas:
            fig = plot_harmonics(hd, **kw)
            ctx.true('figure is left open', canvas.is_open(fig))
            views = canvas.views(fig)
        unchanged(ctx, 'stream', before, hd, True)
        if hd2 is not None:
            unchanged(ctx, 'second stream', before2, hd2, True)
        ctx.same('panels', len(views), 2)
        views = sorted(views, key=lambda v: v.x0)
        for name, v, part, scale in zip(('left', 'right'), views,
                                        (hd[:5], right), (m, m2)):
            ctx.same(name + ' number of harmonics', len(v.lines), len(part))
            if len(v.lines) != len(part):
                continue
            for i, tr in enumerate(part):
                t, d = cut[id(tr)]
                base = 4 - i
                label = '%s harmonic %d' % (name, i)
                line(ctx, label, v.lines[i], t,
                     [x + base * scale for x in d], scale)
                if fill:
                    filled(ctx, label, v, fill, d, base, 'x')
    return fn


class Station(object):
    def __init__(self, code, latitude, longitude):
        self.code, self.latitude, self.longitude = code, latitude, longitude


def maps(nsta, npp, nbox, axes=('given',)):
    """stations, piercing points and boxes are at their coordinates"""
    def fn(ctx):
        axis = ctx.choice('axes', axes)
        what = ctx.choice('plot', ['stations', 'ppoints', 'profile'])
        given = ctx.choice('stations', ['inventory', 'stream', None])
        label = ctx.boolean('label')
        # stations of different networks may have the same code
        codes = ['S%d' % i for i in range(nsta)]
        if axis == 'given' and given is not None and \
                ctx.boolean('same code'):
            codes[1] = codes[0]
        pts = [(ctx.real('plat%d' % i, -40, 40), ctx.real(
            'plon%d' % i, -80, 80)) for i in range(npp)]
        if what == 'profile' and ctx.boolean('no piercing points'):
            pts = None
        boxes = [{'poly': Polygon([(i, 0), (i + 1, 0), (i + 1, 1), (i, 1)]),
                  'latlon': (.5, i + .5)} for i in range(nbox)]
        if given == 'stream':
            stas = [Station(codes[i], 1.5 * i, 3. - i) for i in range(nsta)]
            inv = RFStream([trace(np.zeros(2), '%s.%s..BHZ' % (
                'NM'[stas.index(s) == 1], s.code), T0 + k,
                                  station_latitude=s.latitude,
                                  station_longitude=s.longitude)
                            for k in range(2) for s in stas])
        else:
            stas = [Station(codes[i], ctx.real('lat%d' % i, -40, 40),
                            ctx.real('lon%d' % i, -80, 80))
                    for i in range(nsta)]
            inv = [stas[:1], stas[1:]]
        if given is None:
            if what == 'stations':
                return
            inv = None
            stas = []
        with drawing(ctx) as canvas:
            kw = dict(label_stations=label)
            if axis == 'given':
                ax = kw['ax'] = canvas.geoaxes((0., 0.))
            elif axis == 'crs':
                crs = kw['crs'] = canvas.crs((10., 20.))
            if what == 'stations':
                r = plot_stations(inv, **kw)
            elif what == 'ppoints':
                r = plot_ppoints(pts, inventory=inv, **kw)
            else:
                r = plot_profile_map(boxes, inventory=inv, ppoints=pts, **kw)
            v = canvas.view(r)
        if axis == 'given':
            ctx.true('axes are returned', r is ax)
        elif axis == 'crs':
            ctx.true('coordinate reference system is used',
                     r.projection is crs)
        else:
            pool = {'stations': [(s.latitude, s.longitude) for s in stas],
                    'ppoints': pts,
                    'profile': [b['latlon'] for b in boxes]}[what]
            for i, x in enumerate(canvas.centre(r)):
                ctx.true('map is centred %d' % i, ctx.all_of([
                    ctx.any_of([x >= p[i] - 1e-6 for p in pool]),
                    ctx.any_of([x <= p[i] + 1e-6 for p in pool])]))
        want = [(s.longitude, s.latitude) for s in stas]
        if what != 'stations':
            want += [(p[1], p[0]) for p in pts or []]
        got = allpoints(v)
        ctx.same('number of points', len(got), len(want))
        if len(got) != len(want):
            return
        for word, a, b in (('drawn', want, got), ('expected', got, want)):
            for i, p in enumerate(a):
                ctx.true('point %d is %s' % (i, word), ctx.any_of([
                    ctx.all_of([abs(p[0] - q[0]) <= 1e-6,
                                abs(p[1] - q[1]) <= 1e-6]) for q in b]))
        texts = sorted(v.texts, key=lambda t: t[0])
        ctx.same('labels', [t[0] for t in texts],
                 [s.code for s in stas] if label else [])
        for s in stas if label else []:
            ctx.true('label of station', ctx.any_of([ctx.all_of([
                abs(t[1][0] - s.longitude) <= 1e-6,
                abs(t[1][1] - s.latitude) <= 1e-6])
                for t in texts if t[0] == s.code]))
        ctx.same('boxes', [id(s) for s in v.shapes], [
            id(b['poly']) for b in boxes] if what == 'profile' else [])
    return fn


def empty(ctx):
    fname = ctx.choice('fname', [None, 'x.pdf'])
    with drawing(ctx) as canvas:
        for f in (plot_rf, plot_profile):
            ctx.true('nothing is plotted', f(RFStream(), fname) is None)
        ctx.same('nothing is saved', canvas.saved, [])
        ctx.same('no figures', len(canvas.figs), 0)


ASSUMPTIONS = [
    'real arithmetic instead of floating point (tolerance 1e-6 of the '
    'scale of the inputs)',
    'matplotlib and cartopy draw what they are asked for']


def cases(tier):
    none = ((None, None),)
    c = [Case('rf', rfs(2, 2), '2 traces, 2 samples, any amplitudes, onset, '
              'scale factor and headers'),
         Case('rf onsets', rfs(3, 1, aligned=False, scales=(False,), ids=2),
              '3 traces with any onsets'),
         Case('rf different', rfs(2, 2, aligned=False, odd=True, spikes=True,
                                  infos=('None',)),
              '2 traces of different length'),
         Case('rf infos', rfs(2, 1, infos=('one', 'two', 'None', 'empty',
                                           'default'),
                              show=(True, False), scales=(False,),
                              fnames=(None, 'x.pdf')), '2 traces'),
         Case('rf fills', rfs(1, 3, fills=(C, (C[0], None), (None, C[1])),
                              infos=('None',), scales=(False,), spikes=True,
                              lo=.4), '1 trace, 3 samples'),
         Case('rf trim', rfs(2, 5, aligned=True, ids=2, infos=('None',),
                             trims=((-.6, 1.3),), spikes=True, lo=.3,
                             hi=1.2), '2 traces, 5 samples, window'),
         Case('rf many', rfs(6, 1, spikes=True, infos=('two',)),
              '6 traces, 1 sample'),
         Case('profile', profiles(2, 2, fills=none),
              '2 traces, 2 samples, any amplitudes, boxes and onset'),
         Case('profile onsets', profiles(2, 2, fills=none, shift=.25,
                                         spikes=True),
              '2 traces with different onsets'),
         Case('profile fills', profiles(1, 3, fills=('default', C),
                                        spikes=True), '2 traces'),
         Case('profile hist', profiles(2, 2, tops=('hist',), fills=none,
                                       spikes=True,
                                       fnames=(None, 'y.png')), '2 traces'),
         Case('profile depth', profiles(
             1, 2, models=('default', MODEL), fills=none, spikes=True,
             phases=('Ps', 'Sp', 'Ppps')),
              '1 trace, models iasp91 and another one'),
         Case('profile slowness', profiles(
             1, 2, models=(MODEL,), fills=none, slow=True,
             spikes=True, phases=('Ps', 'Sp', 'Ppss')),
              '1 trace, any slowness'),
         Case('profile trim', profiles(2, 5, trims=((-.6, 1.3),), fills=none,
                                       spikes=True), '2 traces, 5 samples'),
         Case('harmonics', harm(1), 'sets of 5 and 10 harmonics, 1 sample'),
         Case('harmonics trim', harm(5, trims=((-.6, 1.3),), kinds=(
             'other',)), 'two sets of 5 harmonics, 5 samples', time=25),
         Case('harmonics fills', harm(1, kinds=('one',), fills=(
             C, (C[0], None), (None, C[1]))), '5 harmonics'),
         Case('maps', maps(3, 2, 2), '3 stations, 2 piercing points, 2 boxes'),
         Case('maps new', maps(2, 2, 2, axes=('crs', 'default')),
              '2 stations, 2 piercing points, 2 boxes, new axes'),
         Case('empty', empty, '')]
    if tier == 'thorough':
        c += [Case('rf long', rfs(3, 3, infos=('two', 'None'), fills=(
                  False, C)), '3 traces, 3 samples', time=600),
              Case('rf many long', rfs(12, 3, spikes=True, infos=('two',)),
                   '12 traces, 3 samples', time=300),
              Case('profile long', profiles(4, 2, tops=(None, 'hist'),
                                            fills=none),
                   '4 traces, 2 samples', time=600),
              Case('profile many', profiles(8, 4, fills=(C,), spikes=True,
                                            tops=('hist',)),
                   '8 traces, 4 samples', time=600),
              Case('harmonics long', harm(3, fills=(False, C)),
                   'sets of harmonics, 3 samples', time=600)]
    return c
