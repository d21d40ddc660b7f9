"""C14 Writing a stream does not disturb it, even when it fails"""
import contextlib
import json
import re
from string import Formatter
import warnings
from unittest import mock
import numpy as np
import obspyh5
from obspy import Stream
from obspy.core import AttribDict
from rf import RFStream
from symrf.runner import Case
from checks.util import T0, trace, same_headers
from checks.C13 import Json

FORMATS = ['SAC', 'Q', 'H5', 'MSEED']
IDS = ['NE.S2.00.BHQ', 'NE.S1..BHL', '.STA..BHT']
# more traces of one station
IDS5 = ['NE.S2..BHQ', 'NE.S2..BHL', 'NE.S2..BHT', 'NE.S2.00.BHQ', 'NE.S2..BHQ']


class Broken(Exception):
    pass


class Stopped(BaseException):
    pass


@contextlib.contextmanager
def writer(ctx, seen, fault):
    """writer which records what it gets and fails before trace fault[0]"""
    def write(self, filename, format=None, **kwargs):
        rec = dict(filename=filename, format=format, kwargs=kwargs,
                   index=obspyh5._INDEX, traces=[])
        seen.append(rec)
        for i, tr in enumerate(self):
            if fault is not None and i == fault[0]:
                raise fault[1]('no space left')
            rec['traces'].append((tr.stats.station, tr.id, list(tr.data),
                                  dict(tr.stats)))
        if fault is not None and fault[0] >= len(self):
            raise fault[1]('not closed')
    with contextlib.ExitStack() as stack:
        stack.enter_context(mock.patch.object(Stream, 'write', write))
        if ctx.sym:
            js = Json()
            stack.enter_context(mock.patch.object(json, 'dumps', js.dumps))
            stack.enter_context(mock.patch.object(json, 'loads', js.loads))
        yield


def stream(ctx, ntr, kind, times):
    trs = []
    for i in range(ntr):
        h = dict(onset=ctx.utc(ctx.real('onset%d' % i, 0, 5)),
                 slowness=ctx.real('slowness%d' % i, 3, 9),
                 station_latitude=ctx.real('lat%d' % i, -90, 90),
                 pp_depth=ctx.real('depth%d' % i, 0, 100), phase='P',
                 custom='value')
        if times == 'all' or times == 'first' and i == 0:
            h['event_time'] = T0 - 100 - i
        if kind == 'mixed':
            h['type'] = ['rf', 'profile', 'rf'][i % 3]
        elif kind is not None:
            h['type'] = kind
        if kind == 'profile':
            h['box_pos'] = 10. * i
        trs.append(trace(ctx.array('d%d_' % i, 2),
                         (IDS if ntr < 4 else IDS5)[i], T0 + i, 2., **h))
    return RFStream(trs)


def before(st):
    return [(id(tr), tr.id, list(tr.data), dict(tr.stats)) for tr in st]


def undisturbed(ctx, b, st):
    ctx.same('number of traces', len(b), len(st))
    for i, (x, tr) in enumerate(zip(b, st)):
        ctx.true('trace %d is the same' % i, x[0] == id(tr))
        ctx.same('id %d' % i, tr.id, x[1])
        ctx.arr_eq('data %d' % i, tr.data, x[2])
        same_headers(ctx, 'header %d' % i, dict(tr.stats), x[3],
                     skip=('processing', 'sac', 'sh'))


def index_for(kind, st, default):
    """required content of the index"""
    if kind == 'rf':
        return 'event_time'
    if kind == 'profile':
        return 'box_pos'
    return None


def write(ctx, st, fmt, kw, via):
    if via == 'trace':
        st[0].write('file', fmt, **kw)
    else:
        st.write('file', fmt, **kw)


def check_seen(ctx, rec, b, fmt, kind, fault, index0):
    ctx.same('file name', rec['filename'], 'file')
    ctx.same('format', rec['format'].upper(), fmt.upper())
    for i, (station, id_, data, head) in enumerate(rec['traces']):
        if fmt.upper() == 'Q':
            ctx.same('station field %d' % i, station, b[i][1])
        else:
            ctx.same('station %d' % i, station, b[i][3]['station'])
        ctx.arr_eq('data written %d' % i, data, b[i][2])
        for h in ('onset', 'slowness', 'pp_depth', 'channel', 'network'):
            ctx.equal('header written %d %s' % (i, h), head[h], b[i][3][h])
    if fmt.upper() == 'H5':
        key = index_for(kind, None, None)
        if key is not None:
            ctx.true('index for %s' % kind, '{%s' % key in rec['index'])
        if kind == 'rf':
            for k in ('network', 'station', 'location', 'channel'):
                ctx.true('index contains %s' % k, '{%s' % k in rec['index'])
        # writing to a file is not possible without these headers
        times = ['event_time' in x[3] for x in b]
        raw = 'rf' not in [x[3].get('type') for x in b] and \
            kind != 'rf' and not any(times)
        if raw or all(times):
            for _, name, _, _ in Formatter().parse(rec['index']):
                name = re.match(r'\w*', name or '').group()
                for i, x in enumerate(b):
                    ctx.true('%s of index is header of trace %d' % (name, i),
                             name in ('', 'trc_num', 'id', 'duration', 'hash')
                             or name in x[3])
    else:
        ctx.same('index', rec['index'], index0)


def success(ntrs, formats, kinds, times, indices):
    def fn(ctx):
        ntr = ctx.choice('traces', ntrs)
        fmt = ctx.choice('format', formats)
        kind = ctx.choice('type', kinds)
        tim = ctx.choice('event time', times)
        via = ctx.choice('via', ['stream'] + (['trace'] if ntr == 1 else []))
        old = ctx.choice('index', indices)
        kw = ctx.choice('options', [{}, {'mode': 'a'}] + (
            [{'sh_compat': True}] if fmt.upper() == 'Q' else []))
        st = stream(ctx, ntr, kind, tim)
        b = before(st)
        seen = []
        index0 = obspyh5._INDEX
        try:
            if old is not None:
                obspyh5.set_index(old)
            index1 = obspyh5._INDEX
            with writer(ctx, seen, None), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                write(ctx, st, fmt, kw, via)
            ctx.same('index restored', obspyh5._INDEX, index1)
        finally:
            obspyh5._INDEX = index0
        if ntr == 0:
            ctx.true('nothing to write', len(seen) == 0 or
                     not seen[0]['traces'])
            return
        ctx.same('written once', len(seen), 1)
        ctx.same('traces written', len(seen[0]['traces']), ntr)
        ctx.same('mode', seen[0]['kwargs'].get('mode'), kw.get('mode'))
        if kind is None and tim == 'all':
            kind = 'rf'
        check_seen(ctx, seen[0], b, fmt, kind, None, index1)
        undisturbed(ctx, b, st)
    return fn


def failure(ntrs, formats, kinds, faults, indices):
    """writer or conversion of headers fails at any trace"""
    def fn(ctx):
        ntr = ctx.choice('traces', ntrs)
        fmt = ctx.choice('format', formats)
        kind = ctx.choice('type', kinds)
        old = ctx.choice('index', indices)
        what = ctx.choice('fault', faults)
        via = ctx.choice('via', ['stream'] + (['trace'] if ntr == 1 else []))
        where = ctx.choice('at', list(range(ntr + (what != 'header'))))
        st = stream(ctx, ntr, kind, 'all')
        if what == 'header':
            # header which cannot be written
            if fmt.upper() == 'Q':
                st[where].stats.pp_depth = AttribDict(a=1)
                st[where].stats['moveout'] = {1, 2}
            elif fmt.upper() == 'SAC':
                st[where].stats.onset = 'unknown'
            else:
                ctx.assume(False)
        b = before(st)
        fault = None if what == 'header' else (
            where, Stopped if what == 'interrupt' else Broken)
        seen = []
        index0 = obspyh5._INDEX
        ok = False
        try:
            if old is not None:
                obspyh5.set_index(old)
            index1 = obspyh5._INDEX
            with writer(ctx, seen, fault), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                try:
                    write(ctx, st, fmt, {}, via)
                except (Broken, Stopped):
                    ok = fault is not None
                except (TypeError, ValueError, AttributeError):
                    ok = fault is None
            ctx.same('index restored', obspyh5._INDEX, index1)
        finally:
            obspyh5._INDEX = index0
        ctx.true('error is reported', ok)
        if fault is not None:
            ctx.same('one attempt', len(seen), 1)
            check_seen(ctx, seen[0], b, fmt, kind, None, index1)
        if what == 'header':
            for x in b:
                for k in ('moveout', 'onset', 'pp_depth'):
                    if isinstance(x[3].get(k), (set, dict, str)):
                        x[3].pop(k)
            for tr in st:
                for k in ('moveout', 'onset', 'pp_depth'):
                    if isinstance(tr.stats.get(k), (set, dict, str)):
                        tr.stats.pop(k)
        undisturbed(ctx, b, st)
    return fn


def history(formats):
    """failing and successful calls one after another"""
    def fn(ctx):
        f1 = ctx.choice('first', formats)
        f2 = ctx.choice('second', formats)
        fault = ctx.choice('fault', [None, (0, Broken), (1, Stopped)])
        k1 = ctx.choice('type 1', ['rf', 'profile'])
        k2 = ctx.choice('type 2', ['rf', 'profile'])
        st = stream(ctx, 2, k1, 'all')
        b = before(st)
        seen = []
        index0 = obspyh5._INDEX
        try:
            with writer(ctx, seen, fault):
                try:
                    st.write('file', f1)
                except (Broken, Stopped):
                    pass
            st.type = k2
            for i, tr in enumerate(st):
                tr.stats.box_pos = 10. * i
            b = before(st)
            with writer(ctx, seen, None):
                st.write('file', f2)
            ctx.same('index restored', obspyh5._INDEX, index0)
        finally:
            obspyh5._INDEX = index0
        check_seen(ctx, seen[1], b, f2, k2, None, index0)
        undisturbed(ctx, b, st)
    return fn


STUBS = ['writer of obspy records or raises']


ASSUMPTIONS = [
    'writers of obspy and obspyh5 are replaced by one which may fail at '
    'any point']


def cases(tier):
    idx = [None, 'waveforms/{network}/{station}']
    c = [Case('success', success([0, 1, 3, 5], FORMATS + ['q', 'h5'],
                                 ['rf', 'profile', None, 'mixed', 'harmonics'],
                                 ['all', 'none'], idx),
              'up to 5 traces with any data and headers', stubs=STUBS),
         Case('failure', failure([1, 3, 4], FORMATS, ['rf', 'profile'],
                                 ['writer', 'interrupt', 'header'], idx),
              'up to 4 traces, fault at any trace', stubs=STUBS),
         Case('history', history(['SAC', 'Q', 'H5']), '2 calls',
              stubs=STUBS)]
    if tier == 'thorough':
        c += [Case('failure long', failure(
                  [1, 2, 3], FORMATS + ['q', 'h5', 'sac'],
                  ['rf', 'profile', None, 'mixed', 'harmonics'],
                  ['writer', 'interrupt', 'header'], idx), stubs=STUBS,
                  time=600)]
    return c
