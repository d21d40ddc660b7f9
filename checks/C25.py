"""C25 Command line runs equal the documented processing"""
import contextlib
import copy
import fnmatch
import inspect
import io
import json
import os
import shutil
import tempfile
import types
from unittest import mock
import numpy as np
import obspy
import rf.batch
import rf.profile
from rf import RFStream
from rf.batch import run, run_cli, run_commands
from rf.rfstream import RFTrace, read_rf
from rf.util import iter_event_data
from symrf.engine import SymReal
from symrf.runner import Case
from checks.util import T0, event, everywhere, trace

COMPS = 'QLT'


class Broken(Exception):
    pass


class Inventory(object):
    def __init__(self, channels):
        self.channels = channels

    def get_contents(self):
        return {'networks': ['N'], 'stations': ['N.A'],
                'channels': list(self.channels)}


ITER = iter_event_data
BOXES = rf.profile.get_profile_boxes
PROFILE = rf.profile.profile


class Store(object):
    """files in memory"""

    def __init__(self):
        self.files = {}     # path -> traces
        self.writes = []    # all calls
        self.reads = []
        self.broken = set()

    def write(self, traces, fname, format=None, mode=None, **kw):
        traces = [tr.copy() for tr in traces]
        if format == 'H5':
            old = self.files.get(fname, []) if mode == 'a' else []
            new = dict((self.index(tr), tr) for tr in old + traces)
            self.files[fname] = [new[k] for k in new]
        else:
            self.files[fname] = traces
        self.writes.append((fname, format, [tr.id for tr in traces]))

    def index(self, tr):
        return tr.id, str(tr.stats.get('event_time')), tr.stats.get('box_pos')

    def match(self, pattern):
        p = pattern.split(os.path.sep)
        return sorted(f for f in self.files if len(
            f.split(os.path.sep)) == len(p) and all(
                fnmatch.fnmatchcase(a, b) for a, b in zip(
                    f.split(os.path.sep), p)))

    def read(self, pathname_or_url=None, format=None, readonly=None, **kw):
        fname = pathname_or_url
        self.reads.append((fname, format))
        files = self.match(fname)
        if not files:
            raise IOError('no such file')
        res = []
        for f in files:
            for tr in self.files[f]:
                s = tr.stats
                if readonly is None or all(
                        k not in readonly or k not in s or
                        s[k] == readonly[k] for k in (
                            'network', 'station', 'location', 'event_time')):
                    if (s.station, str(s.get('event_time'))) in self.broken:
                        raise Broken('cannot read file')
                    res.append(tr.copy())
        if not res:
            raise KeyError('no such group')
        return RFStream(res)


def named(func, args, kw, num=0):
    """arguments of call, the ones after the first num by name"""
    par = list(inspect.signature(func).parameters.values())
    names = [q.name for q in par if q.kind not in (q.VAR_POSITIONAL,
                                                   q.VAR_KEYWORD)]
    if len(args) > len(names):
        raise TypeError('too many arguments')
    kw = dict(kw)
    for n, a in zip(names, args):
        if n in kw:
            raise TypeError('argument given twice')
        kw[n] = a
    return tuple(kw.pop(n, None) for n in names[:num]), kw


class Run(object):
    """calls of the processing functions"""

    def __init__(self, ctx, data=()):
        self.ctx = ctx
        self.store = Store()
        self.calls = []
        self.data = list(data)    # streams of iter_event_data
        self.f = [ctx.real(k, .5, 3) for k in 'abcd']
        self.events = self.inventory = None
        self.unreadable = ()

    def rf(self, stream, *args, **kw):
        self.calls.append(('rf', args, copy.copy(kw), len(stream)))
        for tr in stream:
            tr.data = self.f[0] * tr.data + self.f[1]
        return stream

    def moveout(self, stream, *args, **kw):
        self.calls.append(('moveout', args, copy.copy(kw), len(stream)))
        for tr in stream:
            tr.data = self.f[2] * tr.data + self.f[3]
        return stream

    def iter_event_data(self, *args, **kw):
        args, kw = named(ITER, args, kw, 3)
        self.calls.append(('data', args, kw, None))
        for st in self.data:
            yield st.copy()

    def boxes(self, *args, **kw):
        args, kw = named(BOXES, args, kw)
        self.calls.append(('boxes', args, kw, None))
        return 'BOXES'

    def profile(self, *args, **kw):
        args, kw = named(PROFILE, args, kw, 2)
        traces = list(args[0])
        self.calls.append(('profile', args[1:], kw, traces))
        return RFStream([trace(tr.data + 1., 'N.S..BH' + tr.stats.channel[-1],
                               box_pos=10. * i, type='profile')
                         for i, tr in enumerate(traces)])

    def plot(self, name):
        def f(stream, *args, **kw):
            self.calls.append((name, args, copy.copy(kw), stream.copy()))
        return f

    def read(self, what, value):
        def f(*args, **kw):
            self.calls.append(('read ' + what, args, kw, None))
            if what in self.unreadable:
                raise IOError('no such file')
            return value()
        return f

    @contextlib.contextmanager
    def world(self):
        with contextlib.ExitStack() as stack:
            tmp = tempfile.mkdtemp(prefix='c25')
            cwd = os.getcwd()
            stack.callback(shutil.rmtree, tmp, True)
            os.chdir(tmp)
            stack.callback(os.chdir, cwd)
            p = mock.patch.object

            def write(self_, filename, format=None, **kw):
                self.store.write(self_, filename, format, **kw)

            def write1(self_, filename, format=None, **kw):
                self.store.write([self_], filename, format, **kw)

            for obj, name, new in [
                    (RFStream, 'write', write), (RFTrace, 'write', write1),
                    (RFStream, 'rf', lambda s, *a, **k: self.rf(s, *a, **k)),
                    (RFStream, 'moveout',
                     lambda s, *a, **k: self.moveout(s, *a, **k)),
                    (RFStream, 'plot_rf', self.plot('plot_rf')),
                    (RFStream, 'plot_profile', self.plot('plot_profile')),
                    (rf.batch, 'tqdm', lambda: None)]:
                stack.enter_context(p(obj, name, new))
            stack.enter_context(everywhere(
                (read_rf, self.store.read),
                (iter_event_data, self.iter_event_data),
                (rf.profile.get_profile_boxes, self.boxes),
                (rf.profile.profile, self.profile),
                (obspy.read_events, self.read(
                    'events', lambda: self.events)),
                (obspy.read_inventory, self.read(
                    'inventory', lambda: self.inventory)),
                (rf.batch.init_data, self.read(
                    'data', lambda: 'WAVEFORMS'))))
            out = io.StringIO()
            stack.enter_context(contextlib.redirect_stdout(out))
            stack.enter_context(contextlib.redirect_stderr(out))
            yield


def world_data(ctx, nev, stations, npts=1, comps=COMPS):
    """streams of all events and stations"""
    evs = [event(ctx, {'latitude': 1., 'longitude': 2., 'depth': 3e3,
                       'time': T0 + 1000 * i}, {'mag': 5.},
                 'smi:local/event/%d' % i) for i in range(nev)]
    streams = {}
    for i in range(nev):
        for j, sta in enumerate(stations):
            net, name, loc, cha = sta.split('.')
            streams[i, j] = RFStream([trace(
                ctx.array('d%d%d%s' % (i, j, c), npts),
                '.'.join((net, name, loc, cha + c)), T0 + 1000 * i + 300, 1.,
                event_time=T0 + 1000 * i, onset=T0 + 1000 * i + 310,
                back_azimuth=10. * i, type='rf', phase='P') for c in comps])
    return evs, streams


def key(tr):
    return tr.id, str(tr.stats.get('event_time'))


def fill(store, streams, root, format):
    """write streams like earlier commands did"""
    for st in streams:
        rf.batch.write(st, root, format)


def foreign(store, streams, format):
    """add files of other events and stations"""
    for change in ('time', 'station'):
        st = streams[0, 0].copy()
        for tr in st:
            if change == 'time':
                tr.stats.event_time = T0 - 5000
            else:
                tr.stats.station = 'OTHER'
        rf.batch.write(st, 'in', format)


def written(ctx, label, store, want, root, formats):
    """statement: exactly the traces want are in the files below root

    :param want: dict (id, event time) -> data
    """
    traces = [tr for f, trs in store.files.items()
              if f.split(os.path.sep)[0].split('.')[0] == root for tr in trs]
    ctx.same(label + ' results', sorted(key(tr) for tr in traces),
             sorted(want))
    for tr in traces:
        if key(tr) in want:
            ctx.arr_eq('%s data %s %s' % ((label,) + key(tr)), tr.data,
                       want[key(tr)])
    w = [(f, fmt) for f, fmt, ids in store.writes]
    ctx.same(label + ' format', sorted(set(fmt for _, fmt in w)), formats)
    ids = [i for f, fmt, ids in store.writes for i in ids]
    ctx.same(label + ' everything is written once', len(ids), len(want))
    ctx.same(label + ' output folder', [f for f, _ in w if f.split(
        os.path.sep)[0] not in (root, root + '.h5', root + '.QHD')], [])


STATIONS = {1: ['N.A..BH'], 2: ['N.A..BH', 'N.B.00.HH'],
            3: ['N.A..BH', 'N.A.10.BH', 'M.A..BH']}
STEPS = [('data', []), ('data', ['calc']), ('data', ['moveout']),
         ('data', ['calc', 'moveout']), ('data', ['moveout', 'calc']),
         ('calc', []), ('calc', ['moveout']), ('moveout', []),
         ('convert', [])]


def conf_file(conf, name='conf.json'):
    with open(name, 'w') as f:
        f.write(json.dumps(conf))


def steps(nev, nsta, formats, faults=(False,), api=('cli', 'api')):
    """data, calc, moveout and convert"""
    def fn(ctx):
        command, more = STEPS[ctx.choice('steps', list(range(len(STEPS))))]
        format = ctx.choice('format', formats)
        way = ctx.choice('way', api)
        newformat = None
        if command == 'convert':
            newformat = ctx.choice('new format', ['Q', 'SAC', 'H5', 'sac'])
        stations = STATIONS[nsta]
        evs, streams = world_data(ctx, nev, stations)
        r = Run(ctx)
        r.events = evs
        r.inventory = Inventory([s + c for s in stations for c in 'ENZ'])
        bad = set()
        if ctx.choice('faults', faults):
            for k in streams:
                f = ctx.choice('fault%d%d' % k, ['ok', 'missing', 'broken'])
                if f != 'ok':
                    bad.add((k, f))
        lost = set(k for k, f in bad)
        good = [streams[k] for k in sorted(streams) if k not in lost]
        with r.world():
            conf = {'events': 'ev.xml', 'inventory': 'inv.xml',
                    'data': 'DATA', 'format': format}
            if command == 'data':
                r.data = good
            else:
                fill(r.store, [streams[k] for k in sorted(streams) if (
                    k, 'missing') not in bad], 'in', format)
                r.store.broken = set((streams[k][0].stats.station, str(
                    streams[k][0].stats.event_time))
                    for k, f in bad if f == 'broken')
                if r.store.broken:
                    # other streams of the same station code and event
                    gone = [k for k in streams if (
                        streams[k][0].stats.station, str(
                            streams[k][0].stats.event_time)) in
                        r.store.broken]
                    good = [streams[k] for k in sorted(streams)
                            if k not in lost and k not in gone]
                foreign(r.store, streams, format)
            r.store.writes = []
            before = sorted(r.store.files)
            if way == 'cli':
                conf_file(conf)
                pos = [] if command == 'data' else ['in']
                run_cli([command] + more + pos + ['out'] + (
                    [newformat] if newformat else []))
            else:
                kw = dict(conf, path_out='out')
                if command != 'data':
                    kw['path_in'] = 'in'
                if newformat:
                    kw['newformat'] = newformat
                if more:
                    kw['commands'] = more
                run_commands(command, **kw)
        a, b, c, d = r.f
        want = {}
        for st in good:
            for tr in st:
                x = list(tr.data)
                for com in [command] + list(more):
                    if com == 'calc':
                        x = [a * v + b for v in x]
                    elif com == 'moveout':
                        x = [c * v + d for v in x]
                want[key(tr)] = x
        fmt = (newformat or format).upper()
        written(ctx, 'run', r.store, want, 'out', [fmt] if want else [])
        ctx.same('input files are kept', [f for f in before
                                          if f not in r.store.files], [])
        seq = [c_[0] for c_ in r.calls if c_[0] in ('rf', 'moveout')]
        names = {'calc': 'rf', 'moveout': 'moveout'}
        ctx.same('processing', seq, [names[s] for s in [command] + list(more)
                                     if s in names] * len(good))
        ctx.same('number of traces processed', set(
            c_[3] for c_ in r.calls if c_[0] in ('rf', 'moveout')),
            {len(COMPS)} if seq else set())
    return fn


def families(ctx):
    """several types of channels at a station"""
    format = ctx.choice('format', ['SAC', 'H5'])
    command = ctx.choice('command', ['calc', 'moveout', 'convert', 'profile',
                                     'stack'])
    stations = [['N.A..BH', 'N.A..HH'], ['N.A..HH', 'N.A..B1', 'N.B..HH']][
        ctx.choice('stations', [0, 1])]
    there = stations[:ctx.integer('number', 1, len(stations))]
    evs, streams = world_data(ctx, 2, there)
    r = Run(ctx)
    r.events = evs
    r.inventory = Inventory([s + c for s in stations for c in 'ENZ'])
    with r.world():
        fill(r.store, [streams[k] for k in sorted(streams)], 'in', format)
        r.store.writes = []
        kw = dict(events='e', inventory='i', format=format, path_in='in',
                  path_out='out')
        if command == 'convert':
            kw['newformat'] = 'SAC'
        run_commands(command, **kw)
    a, b, c, d = r.f
    if command == 'profile':
        got = [sorted(key(tr) for tr in c_[3]) for c_ in r.calls
               if c_[0] == 'profile']
        ctx.same('each trace once', got, [sorted(
            key(tr) for st in streams.values() for tr in st)])
        return
    if command == 'stack':
        want = {}
        for j, sta in enumerate(there):
            for k, comp in enumerate(COMPS):
                want[sta + comp, 'None'] = [
                    (x + y) / 2. for x, y in zip(streams[0, j][k].data,
                                                 streams[1, j][k].data)]
    else:
        want = dict((key(tr), [a * x + b if command == 'calc' else c * x + d
                               if command == 'moveout' else x
                               for x in tr.data])
                    for st in streams.values() for tr in st)
    written(ctx, command, r.store, want, 'out',
            ['SAC' if command == 'convert' else format])


def stacks(nev, nsta, formats):
    """stack, profile and plots"""
    def fn(ctx):
        command = ctx.choice('command', ['stack', 'profile', 'plot',
                                         'plot-profile'])
        format = ctx.choice('format', formats)
        way = ctx.choice('way', ['cli', 'api'])
        stations = STATIONS[nsta]
        evs, streams = world_data(ctx, nev, stations)
        r = Run(ctx)
        r.events = evs
        r.inventory = Inventory([s + c for s in stations for c in 'ENZ'])
        missing = set(k for k in streams if command != 'plot-profile' and
                      ctx.boolean('missing%d%d' % k))
        name = {'stack': 'stack', 'profile': 'profile', 'plot': 'plot',
                'plot-profile': 'plot_profile'}[command]
        opts = {}
        if name != 'stack':
            opts = {name: {'x': ctx.real('x', 0, 1) if way == 'api' else 3.5}}
        if command == 'profile':
            opts['boxes'] = {'azimuth': 30., 'latlon0': [1., 2.]}
            if ctx.boolean('boxbins'):
                opts['boxbins'] = [0, 10, 5]
                opts['boxes'].pop('azimuth')
                if ctx.boolean('replaced bins'):
                    opts['boxes']['bins'] = [1., 2.]
        want_opts = copy.copy(opts.get(name, {}))
        want_boxes = dict(opts.get('boxes', {}))
        want_boxes.pop('bins', None)
        with r.world():
            good = [streams[k] for k in sorted(streams) if k not in missing]
            if command == 'plot-profile':
                prof = RFStream([trace(
                    ctx.array('p%d%s' % (i, c), 1), 'N...BH' + c,
                    box_pos=10. * i, type='profile') for i in range(3)
                    for c in COMPS])
                rf.batch.write(prof, 'in', format, type='profile')
            else:
                fill(r.store, good, 'in', format)
                if command == 'profile':
                    foreign(r.store, streams, format)
            r.store.writes = []
            conf = dict(opts, events='ev.xml', inventory='inv.xml',
                        data='DATA', format=format)
            if way == 'cli':
                conf_file(conf)
                run_cli([command, 'in', 'out'])
            else:
                run_commands(command, path_in='in', path_out='out', **conf)
        calls = [c for c in r.calls if not c[0].startswith('read')]
        if command == 'stack':
            want = {}
            for j, sta in enumerate(stations):
                own = [streams[i, j] for i in range(nev)
                       if (i, j) not in missing]
                for k, comp in enumerate(COMPS):
                    if own:
                        want[sta + comp, 'None'] = [sum(v) / float(
                            len(own)) for v in zip(*[st[k].data
                                                     for st in own])]
            ctx.same('nothing else is done', calls, [])
            written(ctx, 'stack', r.store, want, 'out',
                    [format] if want else [])
            ctx.same('events are not needed', [
                c for c in r.calls if c[0] == 'read events'], [])
        elif command == 'profile':
            ctx.same('calls', sorted(c[0] for c in calls),
                     ['boxes', 'profile'])
            for c in calls:
                ctx.true('arguments of ' + c[0], c[1] == (
                    ('BOXES',) if c[0] == 'profile' else ()))
                w = want_boxes if c[0] == 'boxes' else want_opts
                if c[0] == 'boxes' and 'boxbins' in opts:
                    ctx.same('bins there', 'bins' in c[2], True)
                    ctx.arr_eq('bins', c[2].pop('bins', []),
                               [0., 2.5, 5., 7.5, 10.])
                same_options(ctx, c[0], c[2], w)
                if c[0] == 'profile':
                    ctx.same('traces', sorted(key(tr) for tr in c[3]),
                             sorted(key(tr) for st in good for tr in st))
                    ref = dict((key(tr), tr) for st in good for tr in st)
                    for tr in c[3]:
                        if key(tr) in ref:
                            ctx.arr_eq('data', tr.data, ref[key(tr)].data)
            out = [tr for f, trs in r.store.files.items()
                   if f.startswith('out') for tr in trs]
            ctx.same('profile traces', len(out), 3 * len(good))
            ctx.same('written once', sum(len(ids) for _, _, ids in
                                         r.store.writes), 3 * len(good))
            got = dict(((tr.stats.channel[-1], tr.stats.box_pos), tr.data)
                       for tr in out)
            traces = [c[3] for c in calls if c[0] == 'profile'][0]
            for i, tr in enumerate(traces):
                k = (tr.stats.channel[-1], 10. * i)
                if k in got:
                    ctx.arr_eq('profile trace %d' % i, got[k], tr.data + 1.)
                else:
                    ctx.true('profile trace %d is written' % i, False)
        else:
            ctx.same('nothing is written', r.store.writes, [])
            got = {}
            fnames = []
            for c in calls:
                ctx.same('plot function', c[0], 'plot_rf' if command == 'plot'
                         else 'plot_profile')
                ctx.true('file name is given', len(c[1]) == 1)
                same_options(ctx, 'plot', c[2], want_opts)
                fnames.append(c[1][0])
                ids = set(tr.stats.channel for tr in c[3])
                ctx.same('one channel per plot', len(ids), 1)
                for tr in c[3]:
                    k = key(tr) + (tr.stats.get('box_pos'),)
                    got[k] = got.get(k, []) + [tr]
                if command == 'plot':
                    ctx.same('sorted by back azimuth', [
                        tr.stats.back_azimuth for tr in c[3]],
                        sorted(tr.stats.back_azimuth for tr in c[3]))
            ctx.same('different files', len(set(fnames)), len(fnames))
            ctx.same('output folder', [f for f in fnames if f.split(
                os.path.sep)[0] != 'out'], [])
            all_ = prof.traces if command == 'plot-profile' else [
                tr for st in good for tr in st]
            ctx.same('every trace is plotted once', sorted(
                (k, len(v)) for k, v in got.items()), sorted(
                    (key(tr) + (tr.stats.get('box_pos'),), 1)
                    for tr in all_))
            for tr in all_:
                for g in got.get(key(tr) + (tr.stats.get('box_pos'),), []):
                    ctx.arr_eq('plotted data', g.data, tr.data)
    return fn


def same_options(ctx, label, got, want):
    ctx.same(label + ' option names', sorted(got), sorted(want))
    for k in want:
        if k in got:
            if k in ('x', 'y', 'z') or isinstance(want[k], SymReal):
                ctx.eq('%s option %s' % (label, k), got[k], want[k])
            else:
                ctx.same('%s option %s' % (label, k), got[k], want[k])


PLACES = ['nowhere', 'file', 'command line', 'both']


def place(ctx, conf, args, given, name, value, other):
    """give the option somewhere, return the effective value"""
    p = ctx.choice(name, PLACES + (['empty on command line'] if isinstance(
        value, dict) and name != 'client_options' else []))
    if p == 'empty on command line':
        conf[name] = value
        other = {}

    def text(v):
        return v if isinstance(v, str) else json.dumps(v)
    if p in ('file', 'both'):
        conf[name] = value
    if p in ('command line', 'both', 'empty on command line'):
        args += ['--' + name.replace('_', '-'), text(other)]
        given[name] = other
        return other
    return value if p == 'file' else None


def precedence(names):
    """options of the command line are preferred to those of the file"""
    def fn(ctx):
        conf = {'events': 'ev.xml', 'inventory': 'inv.xml', 'data': 'DATA'}
        args = []
        given = {}
        commands = ctx.choice('commands', [['data', 'calc', 'moveout'],
                                           ['calc', 'moveout']]
                              if 'data' not in names else [['data']])
        values = {
            'rf': ({'deconvolve': 'time', 'x': 1.5}, {'rotate': None}),
            'moveout': ({'phase': 'Ppps', 'ref': 7.}, {'model': 'm'}),
            'options': ({'phase': 'PP', 'x': 3}, {'phase': 'S', 'pad': 1}),
            'phase': ('SKS', 'PKP'), 'moveout_phase': ('Sp', 'Ppss'),
            'format': ('SAC', 'H5'), 'events': ('a.xml', 'b.xml'),
            'inventory': ('c.xml', 'd.xml'), 'data': ('arclink', 'plugin'),
            'client_options': ({'user': 'a'}, {'x': 1}),
            'plugin': (None, None)}
        eff = {}
        for name in names:
            if name in conf:
                del conf[name]
            eff[name] = place(ctx, conf, args, given, name, *copy.deepcopy(
                values[name]))
        for name in ('events', 'inventory', 'data'):
            if name in names and eff[name] is None:
                return
            eff.setdefault(name, conf.get(name))
        evs, streams = world_data(ctx, 1, STATIONS[1])
        r = Run(ctx, streams.values())
        r.events = evs
        r.inventory = Inventory(['N.A..BH' + c for c in 'ENZ'])
        fmt = eff.get('format') or 'Q'
        cname = ctx.choice('file name', ['conf.json', 'other'])
        with r.world():
            conf_file(conf, cname)
            if cname != 'conf.json':
                args = ['-c', cname] + args
            if commands[0] != 'data':
                fill(r.store, streams.values(), 'in', fmt)
                r.store.writes = []
            if ctx.boolean('call of run'):
                if commands[0] != 'data':
                    given['path_in'] = 'in'
                run(commands[0], conf=cname, commands=commands[1:],
                    path_out='out', **given)
            else:
                run_cli(args + commands + ([] if commands[0] == 'data' else
                                           ['in']) + ['out'])
        a, b, c, d = r.f
        want = {}
        for st in streams.values():
            for tr in st:
                x = list(tr.data)
                if 'calc' in commands:
                    x = [a * v + b for v in x]
                if 'moveout' in commands:
                    x = [c * v + d for v in x]
                want[key(tr)] = x
        written(ctx, 'run', r.store, want, 'out', [fmt])
        calls = dict((c_[0], c_) for c_ in r.calls)
        ctx.same('events file', calls['read events'][1][0]
                 if 'read events' in calls else None, eff['events'])
        ctx.same('inventory file', calls['read inventory'][1][0]
                 if 'read inventory' in calls else None, eff['inventory'])
        opts = dict(eff.get('options') or {})
        mout = dict(eff.get('moveout') or {})
        if eff.get('phase'):
            opts['phase'] = eff['phase']
        if eff.get('moveout_phase'):
            mout['phase'] = eff['moveout_phase']
        if commands[0] == 'data':
            k = dict(calls['data'][2])
            k.pop('pbar', None)
            same_options(ctx, 'data', k, opts)
            ctx.true('arguments of iter_event_data', calls['data'][1][0] is
                     evs and calls['data'][1][1] is r.inventory and
                     calls['data'][1][2] == 'WAVEFORMS')
            ctx.same('data option', calls['read data'][1][0]
                     if 'read data' in calls else None, eff['data'])
            ctx.same('client options',
                     (calls['read data'][2].get('client_options')),
                     eff.get('client_options') or {})
        if 'calc' in commands:
            same_options(ctx, 'rf', calls['rf'][2], eff.get('rf') or {})
        if 'moveout' in commands:
            same_options(ctx, 'moveout', calls['moveout'][2], mout)
    return fn


def values(ctx):
    """any values of options given to run or run_commands"""
    evs, streams = world_data(ctx, 1, STATIONS[2])
    r = Run(ctx, streams.values())
    r.events = evs
    r.inventory = Inventory(['N.A..BH' + c for c in 'ENZ'])
    kw = {}
    want = {}
    for i, name in enumerate(['rf', 'moveout', 'options']):
        if ctx.boolean(name):
            kw[name] = {'x': ctx.real('x%d' % i),
                        ('winsrc', 'ref', 'pad')[i]: ctx.real('y%d' % i)}
        want[name] = dict(kw.get(name, {}))
    for i, (name, key_) in enumerate([('phase', 'options'),
                                      ('moveout_phase', 'moveout')]):
        if ctx.boolean(name):
            kw[name] = want[key_]['phase'] = ['PP', 'SKS'][i]
    loaded = ctx.boolean('loaded')
    if loaded:
        kw['events'] = obspy.Catalog(evs) if ctx.boolean(
            'catalog') else list(evs)
        kw['get_waveforms'] = get = types.SimpleNamespace()
    else:
        # file name with its format
        kw['events'] = ['ev.txt', 'ZMAP']
        kw['data'] = 'DATA'
    kw['inventory'] = ['inv.txt', 'STATIONTXT']
    with r.world():
        f = run if ctx.boolean('run') else run_commands
        f('data', commands=['calc', 'moveout'], path_out='out', format='SAC',
          **kw)
    calls = dict((c[0], c) for c in r.calls)
    for name, k in (('rf', 'rf'), ('moveout', 'moveout'),
                    ('data', 'options')):
        # also for the second stream
        for c in r.calls:
            if c[0] == name:
                got = dict(c[2])
                got.pop('pbar', None)
                same_options(ctx, name, got, want[k])
    if loaded:
        ctx.true('events', calls['data'][1][0] is kw['events'])
        ctx.true('data', calls['data'][1][2] is get)
        ctx.same('nothing to read', 'read events' in calls, False)
        ctx.same('nothing to initialize', 'read data' in calls, False)
    else:
        ctx.true('events', calls['data'][1][0] is evs)
        ctx.same('format of events', calls['read events'][1],
                 ('ev.txt', 'ZMAP'))
    ctx.same('format of inventory', calls['read inventory'][1],
             ('inv.txt', 'STATIONTXT'))
    a, b, c, d = r.f
    written(ctx, 'run', r.store, dict((key(tr), [c * (a * v + b) + d
                                                 for v in tr.data])
                                      for st in streams.values()
                                      for tr in st), 'out', ['SAC'])


def refused(ctx):
    """runs without output"""
    kind = ctx.choice('kind', [
        'unknown option', 'twice', 'data twice', 'no conf', 'bad conf',
        'events', 'inventory', 'data', 'unknown command', 'fine'])
    conf = {'events': 'ev.xml', 'inventory': 'inv.xml', 'data': 'DATA'}
    evs, streams = world_data(ctx, 1, STATIONS[1])
    r = Run(ctx, streams.values())
    r.events = evs
    r.inventory = Inventory(['N.A..BH' + c for c in 'ENZ'])
    args = ['data', 'out']
    if kind == 'unknown option':
        conf[ctx.choice('option', ['filter', 'Rf', 'path', 'rf_', ''])] = {}
    elif kind == 'twice':
        args = ctx.choice('args', [
            ['data', 'calc', 'calc', 'out'],
            ['data', 'moveout', 'calc', 'moveout', 'out'],
            ['calc', 'moveout', 'moveout', 'in', 'out']])
    elif kind == 'data twice':
        args = None
    elif kind == 'unknown command':
        args = ctx.choice('args', [['data', 'stack', 'x', 'out'],
                                   ['calc', 'calc', 'in', 'out'],
                                   ['filter', 'in', 'out'], ['data']])
    elif kind in ('events', 'inventory', 'data'):
        r.unreadable = (kind,)
    ex = None
    with r.world():
        fill(r.store, streams.values(), 'in', 'Q')
        r.store.writes = []
        if kind != 'no conf':
            conf_file(conf)
        if kind in ('no conf', 'bad conf') and ctx.boolean('enough options'):
            args = ['--events', 'e', '--inventory', 'i', '--data', 'd'] + args
        if kind == 'bad conf':
            with open('conf.json', 'a') as f:
                f.write(ctx.choice('text', ['}', '{', ']', 'x', '"']))
        try:
            if args is None:
                run_commands('data', commands=ctx.choice('commands', [
                    ['data'], ['calc', 'calc'], ['calc', 'data']]),
                    path_out='out', **conf)
            else:
                run_cli(args)
        except SystemExit as e:
            ex = e
        except Exception as e:
            ex = e
    n = len(r.store.writes)
    if kind == 'fine':
        ctx.true('no error', ex is None)
        ctx.true('output', n > 0)
        return
    ctx.same('no output', n, 0)
    ctx.same('no processing', [c[0] for c in r.calls if c[0] in (
        'rf', 'moveout')], [])
    if kind in ('no conf', 'bad conf', 'events', 'inventory', 'data'):
        ctx.true('message only', ex is None)
    elif kind != 'data twice':
        ctx.true('usage error', isinstance(ex, SystemExit) and
                 ex.code not in (0, None))
    else:
        ctx.true('refused', isinstance(ex, Exception))


COMMENTS = ['', '#', '# x', '# "quoted"', '# it\'s "', ' # }{,', '## #',
            '# "rf": {"x": 5},']


def comments(ctx):
    """comments are ignored wherever they are"""
    v = ctx.choice('value', ['#ff0000', 'a # b', 'C0', 'x\\', '"#"', ''])
    lines = ['', '{', '"events": "ev.xml",', '"inventory": "inv.xml",',
             '"data": "DATA",', '"rf": {"color": %s,' % json.dumps(v),
             '"z": 3', '}, "format": "SAC"', '}', '']
    i = ctx.choice('line', list(range(len(lines))))
    c = ctx.choice('comment', COMMENTS)
    j = ctx.choice('second line', [None, 5, 9])
    lines[i] += c
    if j is not None:
        lines[j] = lines[j] + ('' if j == i else ' ') + '# other "'
    evs, streams = world_data(ctx, 1, STATIONS[1])
    r = Run(ctx, streams.values())
    r.events = evs
    r.inventory = Inventory(['N.A..BH' + c for c in 'ENZ'])
    with r.world():
        with open('conf.json', 'w') as f:
            f.write('\n'.join(lines))
        run_cli(['data', 'calc', 'out'])
    calls = dict((c_[0], c_) for c_ in r.calls)
    ctx.true('receiver functions are calculated', 'rf' in calls)
    if 'rf' in calls:
        same_options(ctx, 'rf', calls['rf'][2], {'color': v, 'z': 3})
    a, b = r.f[:2]
    written(ctx, 'run', r.store, dict((key(tr), [a * v + b for v in tr.data])
                                      for st in streams.values()
                                      for tr in st), 'out', ['SAC'])


def create(ctx):
    """example files"""
    tutorial = ctx.boolean('tutorial')
    name = ctx.choice('conf', [None, 'c.json', 'sub/c.json'])
    r = Run(ctx)
    with r.world():
        os.mkdir('sub')
        args = ['-c', name] if name else []
        run_cli(args + ['create'] + (['-t'] if tutorial else []))
        got = sorted(os.path.join(d, f) for d, _, fs in os.walk('.')
                     for f in fs)
        name = name or 'conf.json'
        d = os.path.dirname(name)
        want = [name] + ([os.path.join(d, f) for f in (
            'example_events.xml', 'example_inventory.xml',
            'example_data.mseed')] if tutorial else [])
        ctx.same('files', got, sorted('./' + f for f in want))
        with open(name) as f:
            conf = json.load(f, cls=rf.batch.ConfigJSONDecoder)
        ctx.same('events', conf.get('events'), 'example_events.xml')
    ctx.same('nothing written', r.store.writes, [])


ASSUMPTIONS = [
    'files are replaced by a store in memory, rf() and moveout() by '
    'affine maps']


def cases(tier):
    c = [Case('steps', steps(1, 1, ['Q', 'SAC', 'H5']),
              '1 event and station, any data, all sequences of commands'),
         Case('steps two', steps(2, 2, ['Q', 'SAC', 'H5'], api=('api',)),
              '2 events and stations'),
         Case('steps faults', steps(1, 3, ['Q', 'SAC', 'H5'], (True,),
                                    ('api',)),
              '1 event, 3 stations, missing and broken files'),
         Case('stacks', stacks(2, 2, ['Q', 'SAC', 'H5']),
              '2 events and stations, missing files'),
         Case('families', families, '2 events, stations with several types '
              'of channels'),
         Case('precedence calc', precedence(['rf', 'moveout',
                                             'moveout_phase']),
              'options given in file and command line'),
         Case('precedence data', precedence(['options', 'phase', 'data',
                                             'client_options']), ''),
         Case('precedence files', precedence(['events', 'inventory',
                                              'format']), ''),
         Case('values', values, 'any values of options'),
         Case('refused', refused, 'errors'),
         Case('comments', comments, 'comments in configuration file'),
         Case('create', create, '')]
    if tier == 'thorough':
        c += [Case('steps long', steps(3, 3, ['Q', 'SAC', 'H5'],
                                       (True, False)),
                   '3 events and stations', time=600),
              Case('stacks long', stacks(3, 3, ['Q', 'SAC', 'H5']),
                   '3 events and stations', time=600),
              Case('precedence long', precedence(
                  ['rf', 'moveout', 'moveout_phase', 'options', 'phase',
                   'format']), '', time=600)]
    return c
