"""C19 Event iteration survives faults and delivers only complete data"""
import contextlib
import itertools
import sys
import types
import warnings
import numpy as np
import obspy
from obspy import Stream, Trace
from rf.batch import init_data
from rf.util import iter_event_data, iter_event_metadata
from symrf.engine import SymReal
from symrf.runner import Case
from checks.C16 import STATE, DEG2KM, Arrival, check_stats, world
from checks.util import T0, event, everywhere

STATIONS = [['N.A..BH?'], ['N.A..BH?', 'N.B.00.HH?'],
            ['N.A..BH?', 'N.A..HH?'], ['N.A.00.BH?', 'N.A.10.BH?', 'N.B..LH?']]
DEFAULT = {'P': (-50, 150), 'S': (-100, 50)}
NO_REQUEST = ('coordinates', 'distance', 'arrival')
YIELD = ('ok', 'split', 'gap in padding', 'several grids')
FAULTS = NO_REQUEST + (
    'raises', 'none', 'empty', 'two', 'four', 'gap', 'overlap', 'rates')


class Unavailable(Exception):
    pass


class Inventory(object):
    """inventory with the given stations"""

    def __init__(self, seeds, pairs, comps='ENZ'):
        self.channels = [s[:-1] + c for s in seeds for c in comps]
        self.seeds, self.pairs, self.calls = seeds, pairs, []

    def get_contents(self):
        return {'networks': ['N'], 'stations': ['N.A'],
                'channels': list(self.channels)}

    def get_coordinates(self, seed_id, datetime=None):
        for p in self.pairs:
            if p['seed'][:-1] == seed_id[:-1] and seed_id in self.channels \
                    and near(datetime - p['time']):
                if p['fault'] == 'coordinates':
                    raise Unavailable('no matching channel metadata')
                return dict(zip(('latitude', 'longitude', 'elevation'),
                                p['sta']), local_depth=0.)
        raise Unavailable('wrong request')


def near(x):
    """is x zero for all inputs"""
    return not isinstance(x, SymReal) and abs(x) < 1e-4


def make_pairs(ctx, nev, seeds, faults, lim, times=(.05, .2)):
    pairs, evs = [], []
    for i in range(nev):
        n = str(i)
        e = dict(ev=(ctx.real('elat' + n, 1 + i * 5, 4 + i * 5),
                     ctx.real('elon' + n, 10, 20)),
                 depth=ctx.real('depth' + n, 1, 600),
                 mag=ctx.real('mag' + n, 1, 9),
                 time=ctx.utc(10000 * i +
                              ctx.real('time' + n, *times)))
        evs.append(event(ctx, {
            'latitude': e['ev'][0], 'longitude': e['ev'][1],
            'depth': e['depth'] * 1000, 'time': e['time']},
            {'mag': e['mag']}, 'smi:local/event/%d' % i,
            ('preferred', 'none')[i % 2],
            {'origin': {'latitude': -50., 'longitude': -50., 'depth': 1e5,
                        'time': T0 - 1000 - i},
             'magnitude': {'mag': 3.}}))
        for j, seed in enumerate(seeds):
            m = '%d_%d' % (i, j)
            f = faults[len(pairs)]
            deg = ctx.real('deg' + m, *(
                lim if f != 'distance' else (lim[1] + 1, 179)))
            p = dict(e, i=i, j=j, seed=seed, fault=f,
                     sta=(ctx.real('slat%d' % j, 21 + 5 * j, 24 + 5 * j),
                          ctx.real('slon%d' % j, 10, 20),
                          ctx.real('sele%d' % j, 0, 5000)),
                     metres=deg * 1000 * DEG2KM, baz=ctx.real('baz' + m, 0, 360),
                     az=ctx.real('az' + m, 0, 360), arrivals=[])
            p['deg'] = p['metres'] / 1000 / DEG2KM
            p['geo'] = p['sta'][:2] + p['ev']
            if f != 'arrival':
                rp = ctx.real('rp' + m, 100, 1000)
                p['arrivals'] = [Arrival(
                    time=ctx.real('tt' + m, 500.05, 500.2),
                    incident_angle=ctx.real('inc' + m, 0, 90),
                    ray_param=rp, ray_param_sec_degree=rp * (np.pi / 180))]
                p['onset'] = p['time'] + p['arrivals'][0].time
            pairs.append(p)
    return evs, pairs


def one_trace(data, seed, comp, start, sr):
    net, sta, loc, cha = seed.split('.')
    tr = Trace(data=data, header={'network': net, 'station': sta,
                                  'location': loc, 'channel': cha[:-1] + comp,
                                  'sampling_rate': sr})
    tr.stats.starttime = start
    # headers of other origin
    tr.stats.event_time = T0 - 1e6
    tr.stats.distance = -1.
    return tr


def data_of(ctx, p, win, pad, sr, comps, symbolic):
    """stream with samples on an absolute grid covering the request"""
    p['data'], st = {}, Stream()
    first = np.floor((win[0] - pad) * sr) / sr - 1 / sr
    n = int((win[1] + pad - first) * sr) + 3
    start = T0 + 10000 * p['i'] + 500 + first
    # times relative to the beginning of the window
    p['rel'] = [start + k / sr - (p['onset'] + p['win'][0]) for k in range(n)]
    for c, comp in enumerate(comps):
        name = 'd%d_%d_%s' % (p['i'], p['j'], comp)
        off = 1000. * p['i'] + 300. * p['j'] + 100 * c
        if symbolic and p['fault'] == 'ok':
            d = ctx.arr([ctx.real('%s%d' % (name, k), off + k, off + k + .5)
                         for k in range(n)])
        else:
            d = np.arange(off, off + n)
        p['data'][comp] = list(d)
        st.append(one_trace(d, p['seed'], comp, start, sr))
    f = p['fault']
    mid = int(((win[0] + win[1]) / 2 - first) * sr + .5)
    bad = p.get('bad', -1)
    bad = [tr for tr in st] if bad == 'all' else [st[bad]]
    if f == 'two':
        st.traces.pop(1)
    elif f == 'empty':
        st.traces = []
    elif f == 'four':
        st.append(one_trace(bad[0].data, p['seed'], '1', start, sr))
    elif f in ('gap', 'split', 'overlap', 'rates', 'gap in padding'):
        k1, k2 = {'gap': (mid, mid + 1), 'split': (mid, mid),
                  'overlap': (mid + 1, mid), 'rates': (mid, mid),
                  'gap in padding': (1, 2)}[f]
        for tr in bad:
            d = tr.data
            tr.data = d[:k1]
            d2 = d[k2:]
            if f == 'overlap':
                d2 = d2 + 7.
            st.append(one_trace(d2, p['seed'], tr.stats.channel[-1],
                                start + k2 / sr,
                                sr if f != 'rates' else 2 * sr))
    return st


def source(ctx, pairs, win, pad, sr, requests, comps, cover=None,
           symbolic=True):
    """source of data or of faults"""
    cover = cover or (win, pad)
    for p in pairs:
        p['win'] = win

    def get_waveforms(network, station, location, channel, starttime,
                      endtime, **kwargs):
        seed = '.'.join((network, station, location, channel))
        for p in pairs:
            if p['seed'] == seed and 'onset' in p and \
                    near(starttime - (p['onset'] + (win[0] - pad))) and \
                    near(endtime - (p['onset'] + (win[1] + pad))):
                requests.append((p['i'], p['j']))
                if p['fault'] == 'raises':
                    raise Unavailable('no data')
                if p['fault'] == 'none':
                    return None
                return data_of(ctx, p, cover[0], cover[1], sr, comps,
                               symbolic)
        requests.append(None)
        return None
    return get_waveforms


@contextlib.contextmanager
def batch(kind, func):
    """source of data of the batch commands"""
    if kind is None:
        yield func
        return
    name = 'rf_c19_plugin'
    mod = types.ModuleType(name)
    mod.get = func
    sys.modules[name] = mod
    sys.modules['obspy.clients.' + name] = cl = types.ModuleType(name)

    class Client(object):
        def get_waveforms(self, network, station, location, channel,
                          starttime, endtime):
            return func(network, station, location, channel, starttime,
                        endtime)
    cl.Client = Client
    try:
        if kind == 'plugin':
            yield init_data('plugin', plugin=name + ' : get')
        else:
            yield init_data(name)
    finally:
        del sys.modules[name]
        del sys.modules['obspy.clients.' + name]


class Bar(object):
    total = None
    n = 0

    def update(self, n=1):
        self.n += n


def run(ctx, evs, seeds, pairs, win, phase, func, lim, sources, kw):
    res = []
    inv = Inventory(seeds, pairs)
    bar = Bar() if len(pairs) > 2 else None
    with world('iasp91', phase, pairs), batch(sources, func) as get:
        with contextlib.redirect_stdout(None):
            for st in iter_event_data(evs, inv, get, pbar=bar, **kw):
                res.append(st)
    if bar is not None:
        ctx.same('bar', (bar.total, bar.n), (len(pairs), len(pairs)))
    return res


def check_cut(ctx, label, data, rel, length, sr, got):
    """got are the samples of data within the window"""
    half = .5 / sr
    k0 = None
    for k in range(len(data)):
        if len(got) and all(k + m < len(data) and data[k + m] is v or
                            not isinstance(v, SymReal) and
                            k + m < len(data) and
                            not isinstance(data[k + m], SymReal) and
                            data[k + m] == v for m, v in enumerate(got)):
            k0 = k
            break
    ctx.true(label + ' are samples of the data', k0 is not None)
    if k0 is None:
        return None
    for k, t in enumerate(rel):
        if k0 <= k < k0 + len(got):
            ctx.le('%s sample %d is not before window' % (label, k), -half, t)
            ctx.le('%s sample %d is not after window' % (label, k), t,
                   length + half)
        else:
            ctx.true('%s sample %d is in window' % (label, k), ctx.any_of(
                [t < 1e-6, t > length - 1e-6]))
    return k0


def check(ctx, res, pairs, win, pad, sr, phase, requests, seeds):
    good = [p for p in pairs if p['fault'] in YIELD]
    ctx.same('requests', requests, [
        (p['i'], p['j']) for p in pairs if p['fault'] not in NO_REQUEST])
    ctx.same('number of streams', len(res), len(good))
    for st, p in zip(res, good):
        l = '%d,%d' % (p['i'], p['j'])
        ctx.true(l + ' has rf method', hasattr(st, 'rf'))
        ctx.same(l + ' components', sorted(tr.id for tr in st),
                 sorted(p['seed'][:-1] + c for c in p['data']))
        for tr in st:
            data = p['data'].get(tr.stats.channel[-1])
            if data is None:
                continue
            k0 = check_cut(ctx, l + tr.stats.channel, data, p['rel'],
                           win[1] - win[0], sr, list(tr.data))
            ctx.true(l + ' not masked', not np.ma.is_masked(tr.data))
            if k0 is not None:
                ctx.eq(l + ' start', tr.stats.starttime - p['onset'],
                       win[0] + p['rel'][k0])
            ctx.eq(l + ' sampling rate', tr.stats.sampling_rate, sr)
            check_stats(ctx, l, tr.stats, p, phase)


def faults(nev, nseeds, kinds, sources, phases=('P',), windows=((-1., 2.),),
           pads=(2.,), sr=1., bad=(-1,)):
    """any pattern of faults"""
    def fn(ctx):
        seeds = STATIONS[nseeds]
        src = ctx.choice('source', sources)
        phase = ctx.choice('phase', phases)
        lim = {'P': (30, 90), 'S': (50, 85)}.get(phase, (80, 120))
        fs = [ctx.choice('fault%d' % i, kinds)
              for i in range(nev * len(seeds))]
        win = ctx.choice('window', windows)
        pad = ctx.choice('pad', pads)
        # warnings are errors if the user wants so, but not here
        evs, pairs = make_pairs(ctx, nev, seeds, fs, lim)
        for p in pairs:
            p['bad'] = ctx.choice('faulty component', bad)
        kw = {}
        if win is None:
            win = DEFAULT[phase[-1].upper()]
        else:
            kw['request_window'] = win
        if pad is None:
            pad = 10
        else:
            kw['pad'] = pad
        if phase != 'P':
            kw['phase'] = phase
        if phase not in 'PS':
            kw['dist_range'] = lim
        requests = []
        func = source(ctx, pairs, win, pad, sr, requests, 'ENZ')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res = run(ctx, evs, seeds, pairs, win, phase, func, lim, src, kw)
        check(ctx, res, pairs, win, pad, sr, phase, requests, seeds)
    return fn


def windows(ctx):
    """any window, padding and sampling grid"""
    seeds = STATIONS[0]
    mode = ctx.choice('mode', ['window', 'pad', 'grid'])
    evs, pairs = make_pairs(ctx, 1, seeds, ['ok', 'ok'], (30, 90),
                            (-.6, .6) if mode == 'grid' else (.05, .2))
    w0, w1, pad = -2., 1., 2.
    if mode == 'window':
        w0, w1 = ctx.real('w0', -3, -.5), ctx.real('w1', .5, 2)
    elif mode == 'pad':
        pad = ctx.real('pad', 0, 2)
    sr = ctx.choice('sampling rate', [1., 2.][:1 + (mode == 'grid')])
    requests = []
    func = source(ctx, pairs, (w0, w1), pad, sr, requests, 'ENZ',
                  ((-3., 3.), 3.), symbolic=False)
    res = run(ctx, evs, seeds, pairs, (w0, w1), 'P', func, None, None,
              dict(request_window=(w0, w1), pad=pad))
    check(ctx, res, pairs, (w0, w1), pad, sr, 'P', requests, seeds)


def file_source(ctx):
    """batch commands reading the data from one file"""
    seeds = STATIONS[1]
    fs = [ctx.choice('fault%d' % i, ['ok', 'two', 'empty', 'distance'])
          for i in range(len(seeds) * 2)]
    evs, pairs = make_pairs(ctx, 2, seeds, fs, (30, 90))
    win, pad, sr = (-1., 2.), 1., 1.
    whole = Stream()
    for p in pairs:
        p['win'] = win
        whole += data_of(ctx, p, win, pad, sr, 'ENZ', False)
    whole = Stream(whole.traces[::2] + whole.traces[1::2])

    def read(*args, **kwargs):
        return whole
    requests = [(p['i'], p['j']) for p in pairs
                if p['fault'] not in NO_REQUEST]
    inv = Inventory(seeds, pairs)
    with world('iasp91', 'P', pairs), everywhere((obspy.read, read)):
        get = init_data('file_which_is_read')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res = list(iter_event_data(evs, inv, get, request_window=win,
                                       pad=pad))
    check(ctx, res, pairs, win, pad, sr, 'P', requests, seeds)


def metadata(ctx):
    seeds = STATIONS[ctx.choice('stations', [0, 1, 2, 3])]
    nev = ctx.choice('events', [None, 0, 1, 2, 3])
    evs = None if nev is None else []
    times = []
    for i in range(nev or 0):
        t = ctx.utc(ctx.real('time%d' % i, -1000, 1000))
        times.append(t)
        pref = ctx.choice('preferred%d' % i, ['none', 'preferred'])
        other = {'origin': {'time': T0 - 5e5}, 'magnitude': {'mag': 1.}}
        evs.append(event(ctx, {'time': t, 'latitude': 1.}, {'mag': 5.},
                         'smi:local/ev/%d' % i, pref, other))
    bar = Bar() if ctx.boolean('bar') else None
    inv = Inventory(seeds, [])
    res = list(iter_event_metadata(evs, inv, pbar=bar))
    want = list(itertools.product([None] if nev is None else range(nev),
                                  seeds))
    ctx.same('number', len(res), len(want))
    for meta, (i, seed) in zip(res, want):
        ctx.same('id', [meta.get(k) for k in (
            'network', 'station', 'location')], seed.split('.')[:3])
        if i is None:
            ctx.true('no time', 'event_time' not in meta)
        else:
            ctx.true('time', 'event_time' in meta)
            ctx.equal('event time', meta['event_time'], times[i])
    if bar is not None:
        ctx.same('bar', (bar.total, bar.n), (len(want), len(want)))


STUBS = ['gps2dist_azimuth, TauPyModel, inventory: any distances, arrivals, '
         'coordinates', 'get_waveforms: data or fault']


ASSUMPTIONS = [
    'the inventory gives coordinates or raises an exception',
    'obspy merges and trims as installed']


def cases(tier):
    kinds = ('ok', 'split', 'gap in padding') + FAULTS
    c = [Case('faults', faults(1, 1, kinds, [None]),
              '1 event, 2 stations, all pairs of faults', stubs=STUBS,
              paths=20000),
         Case('sources', faults(1, 1, ('ok', 'raises', 'none', 'distance'),
                                [None, 'plugin', 'client'], ('P', 'S')),
              '1 event, 2 stations', stubs=STUBS, paths=20000),
         Case('component', faults(1, 0, (
             'gap', 'split', 'overlap', 'rates', 'gap in padding'), [None],
             bad=(0, 1, 2, 'all'), windows=((-1., 2.), (-4., -1.))),
             '1 event, 1 station, fault in any component or in all of them',
             stubs=STUBS),
         Case('pattern', faults(2, 1, ('ok', 'raises', 'coordinates'),
                                [None]),
              '2 events, 2 stations, all patterns of 2 faults', stubs=STUBS,
              paths=20000),
         Case('channels', faults(2, 2, ('ok', 'two'), [None]),
              '2 events, 2 sets of channels', stubs=STUBS),
         Case('default window', faults(
             1, 0, ('ok',), [None], ('P', 'S', 'PP', 'SKS', 'PKP', 'PKS', 'SKP', 's'),
             (None, (-30., 20.)), (None, 0., 20.), .1), 'default and other windows',
              stubs=STUBS),
         Case('windows', windows, 'any window, padding or sampling grid',
              stubs=STUBS),
         Case('file', file_source, 'batch command with a file', stubs=STUBS),
         Case('metadata', metadata, 'up to 3 events and stations',
              stubs=STUBS)]
    if tier == 'thorough':
        c += [Case('pattern long', faults(
            2, 1, ('ok', 'raises', 'coordinates', 'gap', 'arrival'),
            [None, 'plugin']), '2 events, 2 stations', stubs=STUBS,
            paths=100000, time=800),
            Case('3 events', faults(3, 1, ('ok', 'none'), [None]),
                 '3 events, 2 stations', stubs=STUBS, time=300)]
    return c
