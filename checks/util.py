"""Helpers shared by the harnesses."""
import contextlib
import sys
import numpy as np
from obspy import UTCDateTime
from rf.rfstream import RFTrace
from symrf.engine import SymReal

T0 = UTCDateTime('2010-01-01T00:00:00')


def trace(data, id='N.S..BHR', start=T0, sr=1., **stats):
    """RFTrace with given data and headers"""
    net, sta, loc, cha = id.split('.')
    tr = RFTrace(data=data, header={'network': net, 'station': sta,
                                    'location': loc, 'channel': cha,
                                    'sampling_rate': sr})
    tr.stats.starttime = start
    tr.stats.processing = ['an earlier step']
    for k, v in stats.items():
        tr.stats[k] = v
    return tr


def snap(tr):
    """independent record of data and headers of a trace"""
    head = dict((k, list(v) if isinstance(v, list) else v)
                for k, v in tr.stats.items())
    return list(tr.data), head, id(tr)


def same_headers(ctx, label, h1, h2, skip=('processing',)):
    """statement: headers agree"""
    k1 = sorted(set(h1) - set(skip))
    k2 = sorted(set(h2) - set(skip))
    ctx.same(label + ' keys', k1, k2)
    for k in k1:
        if k in h2:
            ctx.equal('%s %s' % (label, k), h1[k], h2[k])


def unchanged(ctx, label, before, stream, processing=True):
    """statement: traces of stream are as recorded by snap"""
    ctx.same(label + ' count', len(before), len(stream))
    for i, (b, tr) in enumerate(zip(before, stream)):
        ctx.true('%s trace %d is same object' % (label, i), b[2] == id(tr))
        ctx.arr_eq('%s data %d' % (label, i), tr.data, b[0])
        same_headers(ctx, '%s headers %d' % (label, i), dict(tr.stats), b[1],
                     skip=() if processing else ('processing',))


@contextlib.contextmanager
def everywhere(*stubs):
    """replace functions or classes wherever they are imported

    :param stubs: tuples (original, replacement)
    """
    import rf.batch  # noqa
    undo = []
    try:
        for name, mod in sorted(sys.modules.items()):
            if mod is None or not (name.split('.')[0] == 'rf' or
                                   name.startswith('obspy')):
                continue
            for key, val in list(vars(mod).items()):
                for orig, repl in stubs:
                    if val is orig:
                        undo.append((mod, key, val))
                        setattr(mod, key, repl)
        yield
    finally:
        for mod, key, val in undo:
            setattr(mod, key, val)


def event(ctx, origin, magnitude, event_id='smi:local/event',
          preferred='none', other=None, number=1):
    """obspy event with the given, possibly symbolic, values

    :param preferred: origin and magnitude are the 'preferred' ones and listed
        after other ones, 'dangling' or 'none' (first in the list)
    :param other: values of other origins and magnitudes
    """
    from obspy.core.event import Event, Origin, Magnitude, ResourceIdentifier

    def make(cls, values, k):
        o = cls(resource_id=ResourceIdentifier('smi:local/%s%d%s' % (
            cls.__name__, k, event_id[-8:].replace('/', ''))))
        for key, val in values.items():
            o.__dict__[key] = val
        return o
    ev = Event(resource_id=ResourceIdentifier(event_id))
    if event_id == '':
        ev.__dict__['resource_id'] = None
    for cls, values, name in ((Origin, origin, 'origin'),
                              (Magnitude, magnitude, 'magnitude')):
        objs = [] if values is None else [make(cls, values, 0)]
        if other is not None:
            objs.append(make(cls, other[name], 1))
            if preferred == 'preferred':
                objs.reverse()
        setattr(ev, name + 's', objs)
        if preferred == 'preferred' and values is not None:
            setattr(ev, 'preferred_%s_id' % name, objs[-1].resource_id)
    return ev


class Numpy(object):
    """numpy with single precision numbers which may be symbolic"""

    @staticmethod
    def float32(x):
        return x if isinstance(x, SymReal) else np.float32(x)

    def __getattr__(self, name):
        return getattr(np, name)
