"""C18 Component iteration partitions the stream"""
from obspy import Stream
from rf import RFStream
from rf.util import IterMultipleComponents
from symrf.runner import Case
from checks.util import T0, trace, snap, unchanged

IDS = ['N.A..BHR', 'N.A..BHT', 'N.B..BHR', 'N.A.00.BHR', 'N.A..HHR',
       'M.A..BHR', 'N.A..BZ', 'N.A..B1Z']
# component codes of any kind, letters in front which look like components
IDS2 = ['N.A..BLZ', 'N.A..BNZ', 'N.A..BH1', 'N.A..BL1', 'N.A..BLN', 'N.a..BLZ']
CLOSE = [6.4, 6.401, 6.4000001, 1e-9, 0., 1000000.1, 1000000.2]
TEXT = ['1', '11', 'None', '']


def value(ctx, key, i):
    """value of the header, equal or not to that of the other traces"""
    if key == 'onset' or key == 'event_time':
        return ctx.utc(ctx.real('time%d' % i, 0, 100))
    if key == 'number':
        return ctx.real('number%d' % i, -5, 5)
    if key == 'close':
        return ctx.choice('number%d' % i, CLOSE)
    if key == 'text':
        return ctx.choice('text%d' % i, TEXT)
    return None


def agree(v1, v2):
    if v1 is None:
        return True
    return bool(v1 == v2)


def partition(ntr, ids, keys, numbers, classes=(RFStream,),
              copies=False):
    def fn(ctx):
        key = ctx.choice('key', keys)
        n = ctx.choice('number', numbers)
        cls = ctx.choice('class', classes)
        which = []
        for i in range(ntr):
            which.append(ctx.integer('id%d' % i, 0, len(ids) - 1))
        vals = [value(ctx, key, i) for i in range(ntr)]
        trs = []
        for i in range(ntr):
            h = {} if key is None else {
                key if key in ('onset', 'event_time') else 'evid': vals[i]}
            if copies:
                # equal traces are not the same
                trs.append(trace(ctx.arr([1., 2.]), ids[which[i]], T0, 1.,
                                 **h))
                continue
            trs.append(trace(ctx.array('d%d_' % i, 1), ids[which[i]], T0 + i,
                             1., extra=i, **h))
        st = cls(trs)
        before = [snap(tr) for tr in trs]
        name = key if key in (None, 'onset', 'event_time') else 'evid'
        kw = {}
        if name is not None:
            kw['key'] = name
        if n is not None:
            kw['number_components'] = n
        it = IterMultipleComponents(st, **kw)
        res = [list(s) for s in it]
        # required partition
        groups = []
        for i in range(ntr):
            for g in groups:
                if ids[which[g[0]]][:-1] == ids[which[i]][:-1] and \
                        agree(vals[g[0]], vals[i]):
                    g.append(i)
                    break
            else:
                groups.append([i])
        allowed = [g for g in groups if n is None or
                   (len(g) in n if isinstance(n, (tuple, list)) else
                    len(g) == n)]
        pos = dict((id(tr), i) for i, tr in enumerate(trs))
        got = []
        for s in res:
            ctx.true('original traces', all(id(tr) in pos for tr in s))
            got.append([pos.get(id(tr)) for tr in s])
        ctx.same('substreams', sorted(got), sorted(allowed))
        ctx.same('length', len(it), len(allowed))
        again = [[pos.get(id(tr)) for tr in s] for s in it]
        ctx.same('repeated', again, got)
        nested = [[pos.get(id(tr)) for tr in s2] for s1 in it for s2 in it]
        ctx.same('nested', nested, got * len(got))
        ctx.same('stream', [id(tr) for tr in st], [id(tr) for tr in trs])
        unchanged(ctx, 'stream', before, st, processing=True)
    return fn


ASSUMPTIONS = [
    'values of key headers are compared as printed']


def cases(tier):
    ns = [None, 1, 2, 3, (2, 3), [1, 3], ()]
    c = [Case('ids', partition(3, IDS[:5], [None], ns, (RFStream, Stream)),
              '3 traces, all ids of 5', paths=20000),
         Case('key', partition(3, IDS[:2], ['onset', 'event_time', 'number'],
                               [None, 1, 2, (2, 3)]),
              '3 traces, any values of the key, all ids of 2', paths=20000),
         Case('4 traces', partition(4, IDS[:1] + IDS[3:4], ['onset'],
                                    [None, (3, 4)]),
              '4 traces, any times, all ids of 2', paths=20000),
         Case('text', partition(2, [IDS[0]] + IDS[6:], ['text'],
                                [None, 1, 2]), '2 traces, texts'),
         Case('close numbers', partition(2, IDS[:2], ['close'], [None, 2]),
              '2 traces, 7 numbers'),
         Case('more ids', partition(3, IDS2, [None], [None, (2, 3)]),
              '3 traces, all ids of 6', paths=20000),
         Case('copies', partition(3, IDS[:2], [None, 'onset'],
                                  [None, 1, 2, 3], copies=True),
              '3 equal traces except of the id and the key', paths=20000),
         Case('empty', partition(0, IDS[:1], [None, 'onset'], ns),
              'empty stream')]
    if tier == 'thorough':
        c += [Case('5 traces', partition(5, IDS[:2] + IDS[2:3], ['onset'],
                                         [None, 1, 2, (3, 5)]),
                   '5 traces, any times', paths=100000, time=600),
              Case('6 traces', partition(6, IDS[:2], ['number'],
                                         [None, 3]),
                   '6 traces, any numbers', paths=100000, time=600),
              Case('4 traces more ids', partition(4, IDS[:6], [None], ns),
                   '4 traces, all ids of 6', paths=100000, time=300)]
    return c
