"""C02 Velocity model results do not depend on earlier calls"""
import os
import shutil
import tempfile
import numpy as np
from rf import RFStream, simple_model
from symrf.runner import Case
from checks import model as M
from checks.util import T0, trace
from checks.C04 import planar

MODELS = {
    'a': ([0., 0., 30.5, 80., 300.], [6., 6., 6.5, 8., 8.1],
          [3.4, 3.4, 3.7, 4.5, 4.5], [0, 0, 1, 0, 0]),
    # same depths
    'b': ([0., 0., 30.5, 55., 80., 300.], [5.8, 5.8, 6.9, 7.7, 8.2, 8.4],
          [3.3, 3.3, 3.8, 4.2, 4.5, 4.6], None),
    'c': ([0., 0., 35., 100., 400.], [5.8, 5.8, 8., 8.2, 8.4],
          [3.3, 3.3, 4.4, 4.5, 4.6], None)}
PHASES = ['Ps', 'Sp', 'Ppps', 'Spss']
FAMILY = ['Ps', 'PS', 'Pp', 'Ppps', 'Ppss', 'Psss', 'Sp', 'Sppp', 'Spps',
          'Spss']
LEGS = ['S', 'P', 'PPS']
DATA = [0., 1., -2., 3., .5, 4.]
VALUES = [4.5, 6.4, 7.8]
# on both sides of a boundary
DEPTHS = [30.2, 30.7, 30.4]


def another(ctx, name, before, lo, hi):
    """value of a further call: one of earlier calls or another one"""
    i = ctx.choice('which_' + name, range(len(before) + 1))
    if i < len(before):
        return before[i]
    x = ctx.real(name, lo, hi)
    for y in before:
        d = x - y
        ctx.assume(ctx.any_of([d > 1e-4, d < -1e-4]))
    return x


class Proc(object):
    """calls which may be made in one process"""

    def __init__(self, ctx, d, mod):
        self.ctx, self.d, self.mod = ctx, d, mod

    def model(self, name):
        if name == 'iasp91':
            return self.mod.load_model(name)
        if name.startswith('./'):
            # relative to the working directory, which does not change
            cwd = os.getcwd()
            os.chdir(self.d)
            try:
                return self.mod.load_model(name[2:])
            finally:
                os.chdir(cwd)
        return self.mod.load_model(os.path.join(self.d, name))

    def delay(self, name, slow, slow2, phase, leg, depth):
        return self.model(name).calculate_delay_times(slow, phase)

    def stretch(self, name, slow, slow2, phase, leg, depth):
        return np.concatenate(self.model(name).stretch_delay_times(
            slow, phase=phase, ref=slow2))

    def vertical(self, name, slow, slow2, phase, leg, depth):
        q = self.model(name).calculate_vertical_slowness(slow, phase)
        return np.concatenate([v for v in q if np.ndim(v)])

    def distance(self, name, slow, slow2, phase, leg, depth):
        return [self.model(name).ppoint_distance(depth, slow, leg)]

    def moveout(self, name, slow, slow2, phase, leg, depth):
        tr = trace(np.array(DATA), start=T0, sr=.25, onset=T0 + 2.3,
                   slowness=slow)
        if phase[0] == 'S':
            tr.stats.onset = T0 + 18.3
        st = RFStream([tr])
        self.model(name).moveout(st, phase=phase, ref=slow2)
        return tr.data

    def ppoint(self, name, slow, slow2, phase, leg, depth):
        st = dict(slowness=slow, back_azimuth=60., station_latitude=10.,
                  station_longitude=20.)
        with planar(self.ctx):
            r = self.model(name).ppoint(st, depth, phase=leg)
        return [r[0], r[1], st['pp_latitude'], st['pp_longitude'],
                st['pp_depth']]


def fresh(ctx, d):
    """process without history"""
    mod = M.fresh_module()
    if ctx.sym:
        # names which are replaced in symbolic runs
        for k, v in vars(simple_model).items():
            if k in vars(mod) and getattr(v, '__wrapped__', None) is \
                    getattr(mod, k) and not k.startswith('__'):
                setattr(mod, k, v)
        mod.float = simple_model.float
    return Proc(ctx, d, mod)


def history(first, second, names=('a', 'b'), phases=PHASES, legs=LEGS,
            nwarm=1, values=False, refs=True, near=False):
    """warm up call(s), then the same call in both processes"""
    def fn(ctx):
        d = tempfile.mkdtemp(prefix='c02')
        try:
            for k in MODELS:
                M.write_model(os.path.join(d, k), *MODELS[k])
            here = fresh(ctx, d)
            args = {}
            for i in range(nwarm + 1):
                if values:
                    slow = ctx.choice('slow%d' % i, VALUES)
                    ref = ctx.choice('ref%d' % i, VALUES)
                    depth = DEPTHS[i] if near else 25. + 30 * i
                elif i == 0:
                    slow = ctx.real('slow0', 4, 9)
                    ref = ctx.real('ref0', 4, 9)
                    depth = ctx.real('depth0', 0, 75)
                else:
                    slow = another(ctx, 'slow%d' % i, [
                        args[j][1] for j in range(i)], 4, 9)
                    ref = args[0][2] if not refs else another(ctx, 'ref%d' % i, [
                        args[j][2] for j in range(i)], 4, 9)
                    depth = another(ctx, 'depth%d' % i, [
                        args[j][5] for j in range(i)], 0, 75)
                args[i] = [ctx.choice('model%d' % i, names if i else
                                      names[:1]), slow, ref,
                           ctx.choice('phase%d' % i, phases),
                           ctx.choice('leg%d' % i, legs), depth]
            calls = [ctx.choice('warm%d' % i, first) for i in range(nwarm)]
            probe = ctx.choice('probe', second)
            for i, c in enumerate(calls):
                r = getattr(here, c)(*args[i])
                if isinstance(r, np.ndarray):
                    # result belongs to the caller
                    r[...] = -1e5
            got = getattr(here, probe)(*args[nwarm])
            want = getattr(fresh(ctx, d), probe)(*args[nwarm])
            ctx.arr_eq('%s after %s' % (probe, calls), got, want, 1e-9)
            again = getattr(here, probe)(*args[nwarm])
            ctx.arr_eq('%s repeated' % probe, again, want, 1e-9)
        finally:
            shutil.rmtree(d)
    return fn


def many(ctx):
    """many calls with different references and phases"""
    d = tempfile.mkdtemp(prefix='c02')
    try:
        for k in MODELS:
            M.write_model(os.path.join(d, k), *MODELS[k])
        here = fresh(ctx, d)
        num = ctx.choice('calls', [3, 5, 9])
        slow = ctx.real('slow', 4, 9)
        refs = [4.5 + .5 * i for i in range(num)]
        phases = ['Ps', 'Sp', 'Ppps']
        for i, ref in enumerate(refs):
            here.stretch('a', 5.5, ref, phases[i % 3], None, None)
        ref = ctx.choice('ref', [refs[0], refs[1], refs[-1], 3.3])
        phase = ctx.choice('phase', phases)
        got = here.stretch('a', slow, ref, phase, None, None)
        want = fresh(ctx, d).stretch('a', slow, ref, phase, None, None)
        ctx.arr_eq('stretch after %d calls' % num, got, want, 1e-9)
    finally:
        shutil.rmtree(d)


def real_module(ctx):
    """the imported module and symbolic data"""
    d = tempfile.mkdtemp(prefix='c02')
    try:
        for k in MODELS:
            M.write_model(os.path.join(d, k), *MODELS[k])
        name = ctx.choice('model', ['a', 'c', 'iasp91'])
        s1, s2 = ctx.choice('s1', VALUES[:2]), ctx.choice('s2', VALUES)
        r1, r2 = ctx.choice('r1', VALUES[:2]), ctx.choice('r2', VALUES)
        ph = ctx.choice('phase', ['Ps', 'Sp'])
        data = ctx.array('d', 8)
        st = RFStream([trace(data, sr=.25, onset=T0 + 14.3, slowness=s1,
                             phase='P')])
        st2 = st.copy()
        st2[0].stats.slowness = s2
        st3 = st2.copy()
        f = name if name == 'iasp91' else os.path.join(d, name)
        st.moveout(ref=r1, phase=ph, model=f)
        st2.moveout(ref=r2, phase=ph, model=f)
        other = fresh(ctx, d)
        other.model(name).moveout(st3, phase=ph, ref=r2)
        ctx.arr_eq('moveout', st2[0].data, st3[0].data, 1e-9)
    finally:
        shutil.rmtree(d)


def ppoints(ctx):
    """piercing points of streams one after another"""
    d = tempfile.mkdtemp(prefix='c02')
    try:
        for k in MODELS:
            M.write_model(os.path.join(d, k), *MODELS[k])
        par = []
        for i in range(2):
            par.append((
                os.path.join(d, ctx.choice('model%d' % i, 'abc' if i else 'a')),
                another(ctx, 'slow%d' % i, [p[1] for p in par], 4, 9),
                another(ctx, 'lat%d' % i, [p[2] for p in par], -50, 50),
                30. + 100 * i,
                another(ctx, 'depth%d' % i, [p[4] for p in par], 0, 75),
                ctx.choice('leg%d' % i, ['S', 'P'])))
        with planar(ctx):
            res = []
            same = ctx.boolean('same stream')
            for f, slow, lat, baz, depth, leg in par:
                header = dict(slowness=slow, back_azimuth=baz,
                              station_latitude=lat, station_longitude=20.)
                if same and res:
                    st[0].stats.update(header)
                else:
                    st = RFStream([trace(np.zeros(3), **header)])
                res.append(st.ppoints(depth, pp_phase=leg, model=f))
            f, slow, lat, baz, depth, leg = par[-1]
            stats = dict(slowness=slow, back_azimuth=baz,
                         station_latitude=lat, station_longitude=20.)
            want = fresh(ctx, d).model(f).ppoint(stats, depth, phase=leg)
        ctx.arr_eq('point', res[-1][0], want, 1e-9)
    finally:
        shutil.rmtree(d)


def two_models(ctx):
    """models loaded at the same time stay apart"""
    d = tempfile.mkdtemp(prefix='c02')
    try:
        for k in MODELS:
            M.write_model(os.path.join(d, k), *MODELS[k])
        os.mkdir(os.path.join(d, 'sub'))
        M.write_model(os.path.join(d, 'sub', 'a'), *MODELS['c'])
        M.write_model(os.path.join(d, 'sub', 'iasp91'), *MODELS['b'])
        names = ['a', 'b', 'c', 'iasp91', 'sub/a', 'sub/iasp91', './a',
                 './sub/a']
        here = fresh(ctx, d)
        order = [ctx.choice('m%d' % i, names) for i in range(2)]
        s = ctx.choice('slow', VALUES)
        r = ctx.choice('ref', VALUES)
        for m in order:
            here.model(m).stretch_delay_times(s, ref=r)
        got = here.model(order[-1])
        want = fresh(ctx, d).model(order[-1])
        for k in ('z', 'dz', 'vp', 'vs'):
            ctx.arr_eq('%s of %s' % (k, order), getattr(got, k),
                       getattr(want, k))
        a, b = (m.stretch_delay_times(s, ref=r) for m in (got, want))
        ctx.arr_eq('times', a[0], b[0])
        ctx.arr_eq('reference times', a[1], b[1])
    finally:
        shutil.rmtree(d)


ASSUMPTIONS = ['a new instance of the module rf.simple_model stands for a '
               'fresh process', 'real arithmetic instead of floating point']

ALL = ['delay', 'stretch', 'vertical', 'distance', 'moveout', 'ppoint']


def cases(tier):
    b = ('models of 4 and 5 layers, two calls of any kind, slowness and '
         'reference 4-9 s/deg, depth 0-140 km')
    q = ['delay', 'stretch', 'vertical', 'ppoint', 'distance']
    st = ['geodesic library: flat earth in symbolic runs']
    c = [Case('any call then delay times', history(
             ALL[:-2], ['stretch', 'delay'], phases=['Ps', 'Sp'], legs=['S']),
              b, stubs=st),
         Case('stretch then stretch', history(['stretch'], ['stretch'], legs=['S']),
              b),
         Case('phases one after another', history(
             ['stretch'], ['stretch'], phases=FAMILY, legs=['S'],
             names=['a'], refs=False), b),
         Case('many calls', many, '3 to 9 calls with different references '
              'and phases before, slowness 4-9 s/deg'),
         Case('moveout then moveout', history(
             ['moveout', 'stretch'], ['moveout'], phases=['Ps', 'Sp'],
             legs=['S'], names=['a', 'b'], values=True), b),
         Case('any call then piercing point', history(
             ['delay', 'vertical', 'distance', 'ppoint'],
             ['distance', 'ppoint', 'vertical'], phases=['Ps'],
             legs=['S', 'P'], names=['a'], refs=False), b, stubs=st),
         Case('stream moveout twice', real_module, '3 models, symbolic data'),
         Case('piercing points of two streams', ppoints, b, stubs=st),
         Case('near depths', history(
             ['distance', 'ppoint'], ['distance', 'ppoint'], phases=['Ps'],
             legs=['S', 'P'], names=['a', 'c'], values=True, near=True),
             'depths on both sides of a boundary', stubs=st),
         Case('several models', two_models, '2 of 8 models in any order')]
    if tier == 'thorough':
        c += [Case('two calls then delay times', history(
                  ALL[:-2], ['stretch', 'delay'], phases=['Ps', 'Sp'],
                  legs=['S'], nwarm=2), b, stubs=st, time=600, paths=20000),
              Case('all phases', history(ALL[:-2], ALL[:-2]), b, stubs=st,
                   time=600, paths=20000),
              Case('moveout of all phases', history(
                  ALL, ['moveout'], phases=PHASES, values=True), b, stubs=st,
                  time=600, paths=20000)]
    return c
