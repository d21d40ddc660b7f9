"""C26 Batch output files never collide and are found again

The functions of rf.batch are run with codes, origin times and positions made
of symbolic characters.  The names passed to the writer and the names used for
reading are compared by the solver.  Concrete runs write and read real files.
"""
import contextlib
import os
import shutil
import tempfile
from unittest import mock

import numpy as np
import obspy
import obspyh5
import z3
from obspy import Stream, Trace
from obspy.core import AttribDict
from rf import RFStream
from rf import batch
from rf.rfstream import RFTrace
from symrf import engine as E
from symrf import text
from symrf.engine import SymReal
from symrf.runner import Case
from checks.util import T0, Numpy

STUBS = ['obspy and obspyh5 readers and writers record names']
EXT = {'SAC': '.SAC', 'Q': '.QHD', 'H5': '.h5'}


class Item(object):
    """one trace with its codes"""

    def __init__(self, ctx, i, lengths, event=None, pos=None, codes=None,
                 start=None):
        n = str(i)
        if codes is None:
            codes = [text.text(ctx, k + n, length)
                     for k, length in zip('nslc', lengths)]
        self.codes = codes
        self.event = event
        self.pos = pos
        self.start = start
        tr = RFTrace(data=np.full(4, 1. + i))
        st = tr.stats
        st.network, st.station, st.location, st.channel = codes
        st.starttime = T0 if start is None or ctx.sym else start[0]
        if event is not None:
            st.event_time = event[0]
            st.onset = T0 + 5
            st.type = 'rf'
        if pos is not None:
            st.box_pos = pos
            st.type = 'profile'
        if start is not None and ctx.sym:
            dict.__setitem__(st.__dict__, 'starttime', start[0])
        self.tr = tr

    def stream(self):
        return RFStream([self.tr])


class Files(object):
    """written files and files which are read"""

    def __init__(self, ctx, fmt, root=None):
        self.ctx = ctx
        self.fmt = fmt
        self.written = []
        self.read = []
        self.root = root
        self.plotted = 0

    @contextlib.contextmanager
    def world(self):
        ctx = self.ctx
        with contextlib.ExitStack() as stack:
            tmp = tempfile.mkdtemp(prefix='c26')
            cwd = os.getcwd()
            stack.callback(shutil.rmtree, tmp, True)
            os.chdir(tmp)
            stack.callback(os.chdir, cwd)
            p = mock.patch.object

            def write(st, filename, format=None, **kw):
                for tr in st:
                    self.written.append((filename, self.index(tr)))

            def read(pathname_or_url=None, format=None, readonly=None, **kw):
                self.read.append((pathname_or_url, readonly))
                return RFStream()

            def plot(st, fname=None, *args, **kw):
                self.written.append((fname, ''))
                self.plotted += len(st)

            if ctx.sym:
                stack.enter_context(p(Stream, 'write', write))
                stack.enter_context(p(RFStream, 'write', self.rfwrite(
                    RFStream.write)))
                stack.enter_context(p(batch, 'read_rf', read))
                if hasattr(batch, '_create_dir'):
                    stack.enter_context(
                        p(batch, '_create_dir', lambda *a, **kw: None))
                stack.enter_context(p(
                    RFTrace, '_write_format_specific_header',
                    lambda *args, **kw: None))
            for k in ('plot_rf', 'plot_profile'):
                stack.enter_context(p(RFStream, k, plot))
            stack.enter_context(p(batch, 'tqdm', lambda *a, **k: None))
            yield self

    def rfwrite(self, orig):
        def write(st, *args, **kw):
            return orig(st, *args, **kw)
        return write

    def index(self, tr):
        if self.fmt != 'H5':
            return ''
        st = dict(tr.stats)
        return '/' + obspyh5._INDEX.format(
            trc_num=0, id=tr.id, duration=1., **st)

    def entries(self):
        """files of traces in real files"""
        if self.ctx.sym:
            return ['%s%s' % w for w in self.written]
        return [os.path.join(d, f)[2:] for d, _, fs in os.walk('.')
                for f in fs]

    def count(self):
        """number of files or data sets"""
        if self.fmt != 'H5':
            return len([f for f in self.entries() if f.endswith(
                EXT[self.fmt])])
        return len(obspy.read('root.h5'))


def lengths(ctx, name, full):
    """lengths of the codes"""
    net = ctx.choice('network' + name, (2, 1, 0) if full else (2,))
    sta = ctx.choice('station' + name, (3, 5, 1, 4) if full else (3, 4))
    loc = ctx.choice('location' + name, (2, 0))
    return net, sta, loc, 3


def differ(ctx, pairs):
    """condition that strings differ"""
    return ctx.any_of([not_(text.same(ctx, a, b)) for a, b in pairs])


def not_(c):
    return not c if isinstance(c, bool) else ~c


def implies(ctx, a, b):
    return ctx.any_of([not_(a), b])


def below(ctx, label, f, name):
    parts = name.split('/')
    ext = EXT[f.fmt] if f.fmt in EXT else f.fmt
    if f.fmt == 'H5':
        ctx.true(label, name.startswith('root.h5'))
    elif len(parts) == 1:
        ctx.true(label, name in ('root' + ext, 'root.QBN'))
    else:
        ctx.true(label, parts[0] == 'root' and '..' not in parts and
                 '.' not in parts and
                 name.endswith((ext, '.QBN') if f.fmt == 'Q' else ext))


def collide(fmts, types, full):
    def fn(ctx):
        fmt = ctx.choice('format', fmts)
        type_ = ctx.choice('type', types)
        if type_ == 'profile' and fmt == 'Q':
            ctx.assume(False)
        once = fmt != 'Q' and type_ != 'stack' and ctx.boolean('one stream')
        it = []
        for i in range(2):
            ev = start = pos = codes = None
            if once and i == 1 and type_ != 'profile':
                # streams have traces of one station and event
                codes = it[0].codes[:3] + [text.text(ctx, 'c1', 3)]
                ev = it[0].event
                if fmt == 'H5':
                    start = text.time(ctx, 's1')
                it.append(Item(ctx, i, le, ev, pos, codes, start))
                continue
            le = lengths(ctx, str(i), full)
            if type_ is None:
                ev = text.time(ctx, 't%d' % i)
                if fmt == 'H5':
                    start = text.time(ctx, 's%d' % i)
            elif type_ == 'profile':
                pos = text.number(ctx, 'p%d' % i, -100, 1000)
                le = 0, 0, 0, 3
            it.append(Item(ctx, i, le, ev, pos, codes, start))
        a, b = it
        dif = list(zip(a.codes, b.codes))
        if fmt == 'Q':
            dif = dif[:3]
        if type_ is None:
            dif.append((a.event[1], b.event[1]))
            if fmt == 'H5':
                dif.append((a.start[1], b.start[1]))
        if type_ == 'profile':
            dif = [(a.codes[3][2:], b.codes[3][2:])]
        new = differ(ctx, dif)
        if type_ == 'profile':
            new = ctx.any_of([new, a.pos != b.pos])
        f = Files(ctx, fmt)
        with f.world():
            if once:
                batch.write(RFStream([a.tr, b.tr]), 'root', fmt, type=type_)
            else:
                batch.write(a.stream(), 'root', fmt, type=type_)
                batch.write(b.stream(), 'root', fmt, type=type_)
            names = f.entries()
            for n in names:
                below(ctx, 'below root', f, n)
            if ctx.sym:
                ctx.same('traces written', len(names), 2)
                if len(names) == 2:
                    other = not_(text.same(ctx, *names))
            else:
                other = f.count() == 2
            if not ctx.sym or len(names) == 2:
                ctx.true('different files', implies(ctx, new, other))
    return fn


def channels(ctx):
    """different types of channels, e.g. BH? and HH?"""
    fmt = ctx.choice('format', ['Q', 'SAC', 'H5'])
    le = lengths(ctx, '0', False)
    ev = text.time(ctx, 't')
    start = text.time(ctx, 's') if fmt == 'H5' else None
    a = Item(ctx, 0, le, ev, start=start)
    b = Item(ctx, 1, le, ev, start=start,
             codes=a.codes[:3] + [text.text(ctx, 'c1', 3)])
    ctx.assume(differ(ctx, [(a.codes[3][:2], b.codes[3][:2])]))
    f = Files(ctx, fmt)
    with f.world():
        batch.write(a.stream(), 'root', fmt)
        batch.write(b.stream(), 'root', fmt)
        names = f.entries()
        ctx.same('traces written', len(f.written) if ctx.sym else 2, 2)
        other = not_(text.same(ctx, *names)) if ctx.sym else f.count() == 2
        if fmt == 'Q':
            ctx.known_true('C26-Q-channels', 'different files', other)
        else:
            ctx.true('different files', other)


class Inventory(object):
    def __init__(self, channels):
        self.channels = channels

    def get_contents(self):
        return {'networks': [], 'stations': [], 'channels': self.channels}


class Event(object):
    resource_id = 'event'

    def __init__(self, time):
        self.time = time
        self.origins = [{'time': time}]

    def preferred_origin(self):
        return None


def found(fmts, full):
    """files of one trace and one pair of event and station"""
    def fn(ctx):
        fmt = ctx.choice('format', fmts)
        events = ctx.choice('events', ['given', None])
        le = lengths(ctx, '0', full)
        item = Item(ctx, 0, le, text.time(ctx, 't0'),
                    start=text.time(ctx, 's0') if fmt == 'H5' else None)
        if ctx.boolean('same station'):
            codes = item.codes[:3]
        else:
            le2 = lengths(ctx, '1', full)
            codes = [text.text(ctx, k + '1', n) for k, n in zip('nsl', le2)]
        t = item.event if ctx.boolean('same event') else \
            text.time(ctx, 't1')
        cha = text.text(ctx, 'c1', 3)
        want = [text.same(ctx, a, b) for a, b in zip(item.codes, codes)]
        if events == 'given':
            want.append(text.same(ctx, item.event[1], t[1]))
        want = ctx.all_of(want)
        inv = Inventory(['.'.join(list(codes) + [cha])])
        evs = [Event(t[0])] if events == 'given' else None
        f = Files(ctx, fmt)
        with f.world():
            batch.write(item.stream(), 'root', fmt)
            sts = list(batch.iter_event_processed_data(
                evs, inv, 'root', fmt, yield_traces=not ctx.sym))
            if ctx.sym:
                ctx.same('traces written', len(f.written), 1)
                ctx.same('reads', len(f.read), 1)
                if len(f.written) == 1 and len(f.read) == 1:
                    ctx.true('found', iff(ctx, want, hit(
                        ctx, f, f.read[0], f.written[0])))
            else:
                ctx.true('found', (len(sts) == 1) == bool(want))
    return fn


def several(ctx):
    """files of several stations and events, each is read once"""
    fmt = ctx.choice('format', ['SAC', 'Q', 'H5'])
    events = ctx.choice('events', ['given', None])
    two = ctx.choice('two', ['stations', 'events'])
    le = lengths(ctx, '0', False)
    it = []
    for i in range(2):
        if two == 'stations' or i == 0:
            codes = [text.text(ctx, k + str(i), n) for k, n in zip('nsl', le)]
        else:
            codes = it[0].codes[:3]
        t = text.time(ctx, 't%d' % i) if two == 'events' or i == 0 else \
            it[0].event
        start = text.time(ctx, 's%d' % i) if fmt == 'H5' else None
        it.append(Item(ctx, i, le, t, codes=list(codes) + ['BHZ'],
                       start=start))
    ctx.assume(differ(ctx, list(zip(it[0].codes, it[1].codes)) +
                      [(it[0].event[1], it[1].event[1])]))
    inv = Inventory(['.'.join(i.codes) for i in (
        it if two == 'stations' else it[:1])])
    evs = [Event(i.event[0]) for i in (
        it if two == 'events' else it[:1])] if events == 'given' else None
    f = Files(ctx, fmt)
    with f.world():
        for i in it:
            batch.write(i.stream(), 'root', fmt)
        traces = list(batch.iter_event_processed_data(
            evs, inv, 'root', fmt, yield_traces=True))
        if ctx.sym:
            ctx.same('traces written', len(f.written), 2)
            for w in f.written:
                hits = [hit(ctx, f, r, w) for r in f.read]
                ctx.true('found', ctx.any_of(hits))
                ctx.true('found once', ctx.all_of([
                    not_(ctx.all_of([a, b])) for i, a in enumerate(hits)
                    for b in hits[:i]]))
        else:
            ctx.same('found once', sorted(tr.data[0] for tr in traces),
                     [1., 2.])


def iff(ctx, a, b):
    return ctx.any_of([ctx.all_of([a, b]),
                       ctx.all_of([not_(a), not_(b)])])


def hit(ctx, f, read, written):
    fname, readonly = read
    r = text.match(ctx, fname, written[0])
    if f.fmt == 'H5':
        # as in obspyh5: index is filled from left to right
        index2 = []
        for i in obspyh5_index(f).split('/'):
            try:
                index2.append(i.format(**readonly))
            except KeyError:
                break
        parts = written[1].split('/')[1:]
        r = ctx.all_of([r] + [text.same(ctx, x, y)
                              for x, y in zip(index2, parts)])
    return r


def obspyh5_index(f):
    from rf.rfstream import _H5INDEX
    return _H5INDEX['rf']


def position(ctx, i, digits):
    if digits == 'any':
        return text.number(ctx, 'p%d' % i, -100, 1000)
    if ctx.sym:
        n = text.Number((integer(ctx, 'n%d' % i, -100, 1000) + .375).p)
        n.ctx = ctx
        return n
    return integer(ctx, 'n%d' % i, -100, 1000) + .375


def profile_found(ctx):
    """all files of a profile are found"""
    fmt = ctx.choice('format', ['SAC', 'Q', 'H5'])
    digits = ctx.choice('digits', ['any', 'three'])
    it = [Item(ctx, i, (0, 0, 0, 3), pos=position(ctx, i, digits))
          for i in range(2)]
    new = ctx.any_of([differ(ctx, [(it[0].codes[3][2:], it[1].codes[3][2:])]),
                      it[0].pos != it[1].pos])
    ctx.assume(new)
    f = Files(ctx, fmt)
    with f.world():
        batch.write(RFStream([i.tr for i in it]), 'root', fmt, type='profile')
        written = list(f.written)
        batch.run_commands('plot-profile', path_in='root', path_out='plots',
                           format=fmt, events=[],
                           inventory=FullInventory(it[0]))
        if ctx.sym:
            ctx.same('traces written', len(written), 2)
            ctx.same('reads', len(f.read), 1)
            if len(f.read) == 1:
                for w in written:
                    ctx.true('found', text.match(ctx, f.read[0][0], w[0]))
        else:
            ctx.same('found', f.plotted, 2)


def plots(ctx):
    """plots of channels and stations"""
    kind = ctx.choice('command', ['plot', 'plot-profile'])
    same = kind == 'plot' and ctx.boolean('same station')
    it = []
    for i in range(2):
        le = lengths(ctx, '0' if same else str(i), False)
        codes = [text.text(ctx, k + ('0' if same else str(i)), n)
                 for k, n in zip('nsl', le)] + [
            text.text(ctx, 'c%d' % i, 3)]
        it.append(Item(ctx, i, le, codes=codes))
        it[-1].tr.stats.back_azimuth = 10.
    st = RFStream([i.tr for i in it])
    f = Files(ctx, '.pdf')
    if kind == 'plot':
        new = differ(ctx, zip(it[0].codes, it[1].codes))
    else:
        new = differ(ctx, [(it[0].codes[3][2:], it[1].codes[3][2:])])
    if not ctx.sym and not new:
        ctx.assume(False)
    with f.world():
        runs = [st] if same or kind != 'plot' else [i.stream() for i in it]
        for s in runs:
            with mock.patch.object(batch, 'read_rf', lambda *a, **k: s):
                batch.run_commands(
                    kind, path_in='in', path_out='root', format='SAC',
                    events=[], inventory=FullInventory(it[0]))
        names = [w[0] for w in f.written]
        ctx.same('plots', len(names), 2)
        for n in names:
            below(ctx, 'below root', f, n)
        if len(names) == 2:
            ctx.true('different files', implies(
                ctx, new, not_(text.same(ctx, *names))))


class Single(SymReal):
    """single precision number as read from a file"""
    __slots__ = ('ctx', 'step')

    def shortest(self):
        """shortest decimal number which is next to this number, three
        decimals are needed at most for all numbers which are written"""
        d = integer(self.ctx, 'short%d' % self.step) / 1000.
        u = 2. ** (self.step - 24)
        self.ctx.assume(d - self <= u)
        self.ctx.assume(self - d <= u)
        return d

    def __str__(self):
        return E.NumStr(SymReal(self.p))


class Single32(object):
    def __init__(self, x):
        self.x = x

    def __str__(self):
        return E.NumStr(self.x.shortest())

    __repr__ = __str__

    def item(self):
        return SymReal(self.x.p)


class Numpy32(Numpy):
    @staticmethod
    def float32(x):
        return Single32(x) if isinstance(x, Single) else Numpy.float32(x)


def integer(ctx, name, lo=-10 ** 8, hi=10 ** 8):
    v = ctx.real(name, lo, hi)
    if ctx.sym:
        ctx.e.add(E.p_z3(v.p) == z3.ToReal(z3.Int('int_' + name)))
        return v
    return float(round(v))


def single(ctx, x):
    """symbolic number rounded to single precision"""
    if not isinstance(x, SymReal):
        return float(np.float32(x))
    y = abs(x)
    for k in range(-10, 13):
        if y < 2. ** (k + 1):
            break
    m = integer(ctx, 'mant%d' % k, -2 ** 24, 2 ** 24)
    f = 2. ** (23 - k)
    ctx.assume(m - x * f <= .5)
    ctx.assume(x * f - m <= .5)
    r = Single((m / f).p)
    r.ctx, r.step = ctx, k
    return r


def chain(ctx):
    """files which have been read are written and found again"""
    fmt = ctx.choice('format', ['SAC', 'Q'])
    start = T0 + ctx.choice('start', [0., .5, 12.345678, 700.123, .9995])
    # origin times in milliseconds
    n = integer(ctx, 'second', -4000, -1)
    ms = integer(ctx, 'ms', 0, 999)
    t = ctx.utc(n + ms / 1000.)
    if not ctx.sym:
        t = T0 + int(n)
        t = t + int(ms) / 1000.
    tr = RFTrace(data=np.arange(4.), header=dict(
        network='N', station='STA', channel='BHZ', starttime=start,
        sampling_rate=10.))
    tr.stats.event_time = t
    tr.stats.onset = start + 1
    if ctx.sym:
        written = []

        def write(st, filename, format=None, **kw):
            for tr in st:
                written.append(dict(tr.stats['sac' if fmt == 'SAC' else
                                             'sh']))
        with mock.patch.object(Stream, 'write', write), \
                mock.patch('rf.rfstream.np', Numpy32()):
            RFStream([tr]).write('file', fmt)
            ctx.same('traces written', len(written), 1)
            head = dict(written[0])
            if fmt == 'SAC':
                head['o'] = single(ctx, head['o'])
            st = dict(network='N', station='STA', channel='BHZ',
                      starttime=start, sampling_rate=10., _format=fmt)
            st['sac' if fmt == 'SAC' else 'sh'] = AttribDict(head)
            tr2 = RFTrace(trace=Trace(np.arange(4.), st))
        d = tr2.stats.event_time - T0
        ctx.true('same second', ctx.all_of([d >= n, d < n + 1]))
        return
    inv = Inventory(['N.STA..BHZ'])
    f = Files(ctx, fmt)
    with f.world():
        batch.write(RFStream([tr]), 'one', fmt)
        one = list(batch.iter_event_processed_data(
            [Event(t)], inv, 'one', fmt))
        ctx.same('first', [len(st) for st in one], [1])
        batch.write(one[0], 'two', fmt)
        two = list(batch.iter_event_processed_data(
            [Event(t)], inv, 'two', fmt))
        ctx.same('second', [len(st) for st in two], [1])


class FullInventory(obspy.Inventory):
    def __init__(self, item):
        super(FullInventory, self).__init__(networks=[], source='')
        self.item = item

    def get_contents(self):
        return {'networks': [], 'stations': [],
                'channels': ['.'.join(self.item.codes)]}


ASSUMPTIONS = [
    'alphanumeric codes, channels of 3 characters, root without wildcards',
    'streams of one station and event per call of write()']


def cases(tier):
    full = tier == 'thorough'
    n = 'codes of all characters and digits, lengths network %s, station ' \
        '%s, location 0 or 2, any origin time in 1900-2099' % (
            ('0-2', '1-5') if full else ('2', '3-4'))
    return [
        Case('events', collide(['SAC', 'Q', 'H5'], [None], full), n,
             stubs=STUBS, time=600 if full else 60),
        Case('types of channels', channels, n, stubs=STUBS),
        Case('stacks', collide(['SAC', 'Q'], ['stack'], full), n,
             stubs=STUBS, time=600 if full else 60),
        Case('profiles', collide(['SAC', 'H5'], ['profile'], full),
             'any component and position', stubs=STUBS),
        Case('found', found(['SAC', 'Q', 'H5'], full), n, stubs=STUBS,
             time=600 if full else 60),
        Case('several', several, n + ', two stations or two events',
             stubs=STUBS),
        Case('profile found', profile_found, 'any component and position',
             stubs=STUBS),
        Case('read and write', chain, 'any origin time in milliseconds up to '
             '4000 s before the trace, 5 start times',
             stubs=['values in SAC files are rounded to single precision']),
        Case('plots', plots, n, stubs=STUBS)]
