"""C13 Receiver function headers survive SAC and Q files"""
import contextlib
import json
from copy import deepcopy
from unittest import mock
import numpy as np
from obspy import Stream, Trace, UTCDateTime
from obspy.core import AttribDict
from rf import RFStream
from rf.rfstream import RFTrace
from symrf.engine import SymReal
from symrf.runner import Case
from checks.util import T0, Numpy

# fields as documented
TABLE = [
    ('station_latitude', 'COMMENT', 'stla'),
    ('station_longitude', 'COMMENT', 'stlo'),
    ('station_elevation', 'COMMENT', 'stel'),
    ('event_latitude', 'LAT', 'evla'), ('event_longitude', 'LON', 'evlo'),
    ('event_depth', 'DEPTH', 'evdp'), ('event_magnitude', 'MAGNITUDE', 'mag'),
    ('event_time', 'ORIGIN', 'o'), ('onset', 'P-ONSET', 'a'),
    ('type', 'COMMENT', 'kuser0'), ('phase', 'COMMENT', 'kuser1'),
    ('moveout', 'COMMENT', 'kuser2'), ('distance', 'DISTANCE', 'gcarc'),
    ('back_azimuth', 'AZIMUTH', 'baz'), ('inclination', 'INCI', 'user0'),
    ('slowness', 'SLOWNESS', 'user1'), ('pp_latitude', 'COMMENT', 'user2'),
    ('pp_longitude', 'COMMENT', 'user3'), ('pp_depth', 'COMMENT', 'user4'),
    ('box_pos', 'COMMENT', 'user5'), ('box_length', 'COMMENT', 'user6')]
HEADERS = [h[0] for h in TABLE]
TEXT = {'type': ['rf', 'profile'], 'phase': ['P', 'Sp'],
        'moveout': ['Ps', 'Ppps']}
RANGE = {'station_latitude': (-90, 90), 'station_longitude': (-180, 180),
         'station_elevation': (-6000, 6000), 'event_latitude': (-90, 90),
         'event_longitude': (-180, 180), 'event_depth': (-5, 700),
         'event_magnitude': (-1, 10), 'distance': (0, 180),
         'back_azimuth': (0, 360), 'inclination': (0, 90), 'slowness': (0, 20),
         'pp_latitude': (-90, 90), 'pp_longitude': (-180, 180),
         'pp_depth': (0, 1000), 'box_pos': (-500, 5000),
         'box_length': (0, 500)}


class Json(object):
    """numbers keep their values in JSON strings, also symbolic ones"""

    def __init__(self):
        self.dumps_, self.loads_ = json.dumps, json.loads
        self.values = {}

    def hide(self, o, default=None):
        if isinstance(o, np.ndarray) and o.size == 1 and \
                isinstance(o.reshape(-1)[0], SymReal):
            o = o.reshape(-1)[0]
        if isinstance(o, SymReal):
            key = '\x01sym%d' % len(self.values)
            self.values[key] = o
            return key
        if isinstance(o, dict):
            return dict((k, self.hide(v)) for k, v in o.items())
        if isinstance(o, (list, tuple)):
            return [self.hide(v) for v in o]
        return o

    def show(self, o):
        if isinstance(o, str):
            return self.values.get(o, o)
        if isinstance(o, dict):
            return dict((k, self.show(v)) for k, v in o.items())
        if isinstance(o, list):
            return [self.show(v) for v in o]
        return o

    def dumps(self, obj, *args, **kwargs):
        return self.dumps_(self.hide(obj), *args, **kwargs)

    def loads(self, s, *args, **kwargs):
        return self.show(self.loads_(s, *args, **kwargs))


@contextlib.contextmanager
def files(ctx, written):
    """record what is passed to the writer of obspy"""
    def write(self, filename, format=None, **kwargs):
        for tr in self:
            st = tr.stats
            written.append(dict(
                id=tr.id, data=list(tr.data), format=format,
                station=st.station, channel=st.channel,
                starttime=st.starttime, network=st.network,
                location=st.location, sampling_rate=st.sampling_rate,
                head=deepcopy(dict(st.get(
                    'sac' if format.upper() == 'SAC' else 'sh', {})))))
    with contextlib.ExitStack() as stack:
        stack.enter_context(mock.patch.object(Stream, 'write', write))
        if ctx.sym:
            j = Json()
            stack.enter_context(mock.patch.object(json, 'dumps', j.dumps))
            stack.enter_context(mock.patch.object(json, 'loads', j.loads))
            stack.enter_context(mock.patch('rf.rfstream.np', Numpy()))
        yield


def value(ctx, h, i, text=0):
    if h in TEXT:
        return TEXT[h][text]
    if h == 'onset':
        return ctx.utc(ctx.real('onset%d' % i, -1000, 3000))
    if h == 'event_time':
        return ctx.utc(ctx.real('time%d' % i, -3000, 1000))
    return ctx.real(h + str(i), *RANGE[h])


def read(w, fmt, undefined, via, comment=None):
    """RFTrace as created when reading the file"""
    head = dict(w['head'])
    if fmt == 'SAC' and undefined is not None:
        # reader sets fields without a value
        for h, _, f in TABLE:
            if head.get(f) is None:
                head[f] = (-12345. if undefined == 'number' else '-12345.0'
                           ) if h not in TEXT else '-12345' + \
                    ('  ' if undefined == 'number' else '')
    if comment is not None:
        head['COMMENT'] = comment
    stats = dict(network=w['network'] if fmt == 'SAC' else '',
                 station=w['station'],
                 location=w['location'] if fmt == 'SAC' else '',
                 channel=w['channel'], starttime=w['starttime'],
                 sampling_rate=w['sampling_rate'], _format=fmt)
    stats['sac' if fmt == 'SAC' else 'sh'] = AttribDict(head)
    tr = Trace(data=np.zeros(3), header=stats)
    if via == 'stream':
        return RFStream([tr])[0]
    if via == 'obspy stream':
        return RFStream(Stream([tr]))[0]
    return RFTrace(trace=tr)


def compare(ctx, label, st, want, skip=()):
    for h in HEADERS:
        if h in want and h not in skip:
            if h not in st:
                ctx.true('%s %s is missing' % (label, h), False)
            elif h in ('onset', 'event_time'):
                ok = isinstance(st[h], UTCDateTime)
                ctx.true('%s %s is time' % (label, h), ok)
                if ok:
                    # SAC has single precision
                    ctx.eq('%s %s' % (label, h), st[h] - want[h], 0.,
                           1e-5 if ctx.sym else 3e-4)
            else:
                ctx.equal('%s %s' % (label, h), st[h], want[h])
        else:
            ctx.true('%s %s not set' % (label, h), h not in st)


def fields(ctx, label, fmt, head, want):
    """header fields in the file"""
    for h, q, sac in TABLE:
        f = sac if fmt == 'SAC' else q
        if f == 'COMMENT':
            continue
        v = head.get(f)
        if h not in want:
            ctx.true('%s %s not in file' % (label, h),
                     v is None or '-12345' in str(v))
        elif v is None:
            ctx.true('%s %s in file' % (label, h), False)
        elif fmt == 'SAC' and h in ('onset', 'event_time'):
            ref = UTCDateTime(
                year=head['nzyear'], julday=head['nzjday'],
                hour=head['nzhour'], minute=head['nzmin'],
                second=head['nzsec'], microsecond=1000 * head['nzmsec'])
            ctx.eq('%s %s' % (label, f), v, want[h] - ref, 1e-5)
        elif h in ('onset', 'event_time'):
            ctx.eq('%s %s' % (label, f), v - want[h], 0., 1e-5)
        else:
            ctx.equal('%s %s' % (label, f), v, want[h])


# start time, old sac header
STARTS = [(T0, None), (T0 + 12.345678, None),
          (T0 + .25, dict(nzyear=2009, nzjday=365, nzhour=23, nzmin=59,
                          nzsec=30, nzmsec=500, b=29.75, iztype=9)),
          (T0 + 3600, dict(nzyear=2010, nzjday=1, nzhour=1, nzmin=0, nzsec=0,
                           nzmsec=0, b=0., a=5., o=-100., user1=3., iztype=9)),
          (T0 + .75, dict(user7=3.)), (T0 + 1.5, {})]


def patterns(single, pairs=False):
    p = [HEADERS, []]
    if single:
        p += [[h] for h in HEADERS]
        p += [[g for g in HEADERS if g != h] for h in HEADERS]
    if pairs:
        p += [[g, h] for i, g in enumerate(HEADERS) for h in HEADERS[:i]]
    return p


def roundtrip(formats, pats, starts, undefined=(None,), vias=('trace',),
              writers=('stream',), texts=(0,)):
    def fn(ctx):
        fmt = ctx.choice('format', formats)
        pat = ctx.choice('headers', pats)
        start, old = ctx.choice('start', starts)
        undef = ctx.choice('undefined', undefined) if fmt.upper() == 'SAC' \
            else None
        via = ctx.choice('via', vias)
        writer = ctx.choice('writer', writers)
        text = ctx.choice('text', texts)
        ntr = 2 if writer == 'stream of two' else 1
        trs, want = [], []
        for i in range(ntr):
            w = dict((h, value(ctx, h, i, text)) for h in pat
                     if (i == 0) == (h != 'distance') or i == 0)
            want.append(w)
            tr = RFTrace(data=np.array([1., 2., 3.]), header=dict(
                network='NE', station='STA', location='0%d' % i,
                channel='BHQ', starttime=start, sampling_rate=2.))
            if old is not None:
                tr.stats.sac = AttribDict(old)
            for h in w:
                tr.stats[h] = w[h]
            trs.append(tr)
        if old is not None:
            for w, k in zip(want, trs):
                # values of the old SAC header which are not set stay
                if fmt.upper() != 'SAC':
                    continue
                if 'a' in old and 'onset' not in w or \
                        'o' in old and 'event_time' not in w or \
                        'user1' in old and 'slowness' not in w:
                    ctx.assume(False)
        written = []
        with files(ctx, written):
            if writer == 'trace':
                trs[0].write('file', fmt)
            else:
                RFStream(trs).write('file', fmt)
            ctx.same('traces written', len(written), ntr)
            fm = fmt.upper()
            for i, w in enumerate(written):
                ctx.same('format', w['format'].upper(), fm)
                fields(ctx, 'file', fm, w['head'], want[i])
                tr = read(w, fm, undef, via)
                ctx.same('id', tr.id, 'NE.STA.0%d.BHQ' % i)
                compare(ctx, 'read', tr.stats, want[i])
        for i, tr in enumerate(trs):
            compare(ctx, 'written', tr.stats, want[i])
            ctx.same('id written', tr.id, 'NE.STA.0%d.BHQ' % i)
    return fn


def again(formats, starts, chains):
    """write, read, change and write again"""
    def fn(ctx):
        fmt = ctx.choice('format', formats)
        fmt2 = ctx.choice('second format', formats)
        start, _ = ctx.choice('start', starts)
        pat, change = ctx.choice('headers', chains)
        tr = RFTrace(data=np.array([1., 2., 3.]), header=dict(
            network='NE', station='STA', location='', channel='BHQ',
            starttime=start, sampling_rate=2.))
        want = dict((h, value(ctx, h, 0)) for h in pat)
        for h in want:
            tr.stats[h] = want[h]
        written = []
        with files(ctx, written):
            RFStream([tr]).write('file', fmt)
            tr = read(written[0], fmt, None, 'trace')
            compare(ctx, 'first', tr.stats, want)
            if ctx.boolean('shift'):
                # start time is changed
                tr.stats.starttime += 7.5
            new = dict(want)
            for h in change:
                tr.stats[h] = new[h] = value(ctx, h, 1, 1)
            RFStream([tr]).write('file', fmt2)
            fields(ctx, 'file', fmt2, written[1]['head'], new)
            tr = read(written[1], fmt2, None, 'stream')
            compare(ctx, 'second', tr.stats, new)
    return fn


def comments(ctx):
    """option sh_compat and comments of other programs"""
    compat = ctx.boolean('sh_compat')
    pat = ctx.choice('headers', [HEADERS, ['phase'], ['onset', 'slowness']])
    comment = ctx.choice('comment', [None, 'some comment', '', '5', 'null',
                                     '[1, 2]', '"text"', '{', 'true'])
    old = ctx.choice('old comment', [None, 'old', '{"pp_depth": 3}'])
    tr = RFTrace(data=np.array([1., 2., 3.]), header=dict(
        network='NE', station='STA', location='', channel='BHQ',
        starttime=T0))
    want = dict((h, value(ctx, h, 0)) for h in pat)
    for h in want:
        tr.stats[h] = want[h]
    if old is not None:
        if not compat and not any(q == 'COMMENT' and h in want
                                  for h, q, s in TABLE):
            ctx.assume(False)
        tr.stats.sh = AttribDict(COMMENT=old)
    written = []
    with files(ctx, written):
        RFStream([tr]).write('file', 'Q', sh_compat=compat)
        head = written[0]['head']
        if compat:
            ctx.true('no comment', 'COMMENT' not in head)
        tr = read(written[0], 'Q', None, 'stream', comment)
    lost = [h for h, q, s in TABLE if q == 'COMMENT'] \
        if compat or comment is not None else []
    compare(ctx, 'read', tr.stats, want, lost)


def types(ctx):
    """header values of numpy types and integers"""
    fmt = ctx.choice('format', ['SAC', 'Q'])
    h = ctx.choice('header', [x for x in HEADERS if x in RANGE])
    v = ctx.choice('value', [np.float64(12.25), np.float32(.0625), np.int64(3),
                             7, 0, 0., np.float64(-2.5), np.array(1.53125),
                             6.12345, 12345., 12345, -1234.5, np.float32(0.12345)])
    other = ctx.real('other', 0, 5)
    tr = RFTrace(data=np.array([1., 2., 3.]), header=dict(
        network='NE', station='STA', location='', channel='BHQ',
        starttime=T0))
    g = 'pp_depth' if h != 'pp_depth' else 'slowness'
    tr.stats[g] = other
    tr.stats[h] = v
    written = []
    with files(ctx, written):
        RFStream([tr]).write('file', fmt)
        tr = read(written[0], fmt, None, 'stream')
    ctx.true('read', h in tr.stats and g in tr.stats)
    if h in tr.stats:
        ctx.eq('value', float(tr.stats[h]), float(v))
    if g in tr.stats:
        ctx.eq('other value', tr.stats[g], other)


STUBS = ['obspy Stream.write records headers', 'json keeps symbolic numbers']
TIMES = ['onset', 'event_time', 'slowness', 'phase', 'pp_depth']
CHAINS = [(HEADERS, HEADERS), (TIMES, ['onset']), (TIMES, []),
          (TIMES, ['pp_depth', 'phase']), ([], TIMES),
          (['onset'], ['station_latitude'])]


ASSUMPTIONS = [
    'binary files are replaced by dictionaries of header fields (C28 is '
    'not claimed)',
    'single precision of SAC numbers only enters by tolerances']


def cases(tier):
    one = patterns(True)
    c = [Case('combinations', roundtrip(['SAC', 'Q'], one, STARTS[:1]),
              '44 combinations of headers with any values', stubs=STUBS),
         Case('reference time', roundtrip(
             ['SAC', 'Q', 'sac', 'q'], [HEADERS, TIMES], STARTS,
             writers=['stream', 'trace'], texts=(0, 1)),
             'headers with any values, 4 reference times', stubs=STUBS),
         Case('undefined values', roundtrip(
             ['SAC'], one, STARTS[:1], undefined=['number', 'text'],
             vias=['stream']), '44 combinations of headers', stubs=STUBS),
         Case('two traces', roundtrip(
             ['SAC', 'Q'], [HEADERS, TIMES, ['distance'], ['box_pos']],
             STARTS[:2], vias=['trace', 'stream', 'obspy stream'],
             writers=['stream of two'], undefined=[None, 'number']),
             '2 traces with different headers', stubs=STUBS),
         Case('write twice', again(['SAC', 'Q'], STARTS[:2], CHAINS),
              'changed headers after reading', stubs=STUBS),
         Case('comments', comments, 'comments of other programs',
              stubs=STUBS),
         Case('types', types, 'integers and numpy types', stubs=STUBS)]
    if tier == 'thorough':
        c += [Case('pairs', roundtrip(['SAC', 'Q'], patterns(False, True),
                                      STARTS[:2]), stubs=STUBS, time=600),
              Case('combinations long', roundtrip(
                  ['SAC', 'Q'], one, STARTS, undefined=[None, 'number'],
                  writers=['stream', 'stream of two']), stubs=STUBS,
                  time=600)]
    return c
