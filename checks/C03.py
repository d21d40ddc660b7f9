"""C03 Delay times follow ray theory in every layered model"""
from fractions import Fraction
import contextlib
import itertools
import os
import shutil
import tempfile
import numpy as np
from rf import simple_model
from rf.simple_model import SimpleModel
from symrf.runner import Case
from checks import model as M

PHASES = (['Ps', 'Sp', 'PP', 'ss', 'PS', 'sp', 'pS'] +
          ['%s%s%s%s' % ((a,) + r) for a in 'PS'
           for r in itertools.product('ps', repeat=3)] + ['PPSS', 'SPPS'])


def sym_model(ctx, nlay, double=True):
    """thicknesses and velocities of nlay layers over the last depth"""
    z = [0.]
    if double:
        z.append(0.)
    vp, vs = [], []
    for i in range(nlay):
        z.append(z[-1] + ctx.real('h%d' % i, 1, 50))
        vp.append(ctx.real('vp%d' % i, 4, 9))
        vs.append(ctx.real('vs%d' % i, 2, 5))
    if double:
        vp.insert(0, vp[0])
        vs.insert(0, vs[0])
    return z, vp + [9.], vs + [5.]


def propagates(ctx, vp, vs, slow, phase, n):
    for v, c in ((vp, 'P'), (vs, 'S')):
        if c in phase.upper():
            for i in range(n):
                ctx.assume((slow / M.DEG) * v[i] < 0.999)


def delay(nlay, phases, double):
    def fn(ctx):
        phase = ctx.choice('phase', phases)
        z, vp, vs = sym_model(ctx, nlay, double)
        slow = ctx.real('slow', 0, 20)
        n = len(z) - 1
        propagates(ctx, vp, vs, slow, phase, n)
        m = SimpleModel(ctx.arr(z), ctx.arr(vp), ctx.arr(vs))
        t = m.calculate_delay_times(slow, phase)
        want = M.delay_increments(z, vp, vs, slow, phase)
        ctx.same('length', len(t), n)
        for i in range(n):
            ctx.eq('%s layer %d' % (phase, i),
                   t[i] - (t[i - 1] if i else 0.), want[i])
        # input is not modified
        ctx.arr_eq('z', m.z, z[:n])
        ctx.arr_eq('vp', m.vp, vp[:n])
        ctx.arr_eq('vs', m.vs, vs[:n])
        q = m.calculate_vertical_slowness(slow, phase)
        for c, v, qq in (('P', vp, q[0]), ('S', vs, q[1])):
            if c in phase.upper():
                ctx.arr_eq('vertical slowness ' + c, qq,
                           [M.vslow(v[i], slow) for i in range(n)])
    return fn


def table(phases, nlay):
    """stretching table, all waves propagate"""
    def fn(ctx):
        phase = ctx.choice('phase', phases)
        z, vp, vs = sym_model(ctx, nlay)
        slow, ref = ctx.real('slow', 0, 20), ctx.real('ref', 0, 20)
        n = len(z) - 1
        propagates(ctx, vp, vs, slow, phase, n)
        propagates(ctx, vp, vs, ref, phase, n)
        m = SimpleModel(ctx.arr(z), ctx.arr(vp), ctx.arr(vs))
        t0, t1 = m.stretch_delay_times(slow, phase=phase, ref=ref)
        sg = -1. if phase[0].upper() == 'S' else 1.
        w0 = [sg * t for t in M.delay_times(z, vp, vs, slow, phase)[1:]]
        w1 = [sg * t for t in M.delay_times(z, vp, vs, ref, phase)[1:]]
        check_table(ctx, phase, t0, t1, w0, w1, n)
    return fn


def check_table(ctx, phase, t0, t1, w0, w1, nmin, nmax=None):
    """w0, w1 start with the surface"""
    ctx.same('%s lengths' % phase, len(t0), len(t1))
    nmax = nmin if nmax is None else nmax
    # part for negative times is antisymmetric
    n = None
    for k in range(nmin, nmax + 1):
        if len(t0) == k + min(9, k - 1):
            n = k
    ctx.true('%s length of table %d (%d-%d depths)' % (
        phase, len(t0), nmin, nmax), n is not None)
    if n is None:
        return
    k = len(t0) - n
    for j in range(n):
        ctx.eq('%s time %d' % (phase, j), t0[k + j], w0[j])
        ctx.eq('%s reference time %d' % (phase, j), t1[k + j], w1[j])
    for j in range(k):
        ctx.eq('%s mirrored time %d' % (phase, j), t0[k - 1 - j],
               -1. * w0[j + 1])
        ctx.eq('%s mirrored reference time %d' % (phase, j), t1[k - 1 - j],
               -1. * w1[j + 1])


Z = [0., 0., 10., 20., 35., 60., 100., 150., 210., 300., 410., 500., 660.]
VP = [5.8, 5.8, 6.0, 6.5, 8.0, 8.05, 8.1, 8.2, 8.3, 8.6, 9.0, 9.6, 10.2]
VS = [3.3, 3.3, 3.5, 3.7, 4.4, 4.45, 4.5, 4.5, 4.55, 4.7, 4.9, 5.2, 5.6]


def turning(phase):
    """slowness and reference at which waves may turn in the model"""
    def fn(ctx):
        pmax = M.DEG / 6.2 if 'P' in phase.upper() else M.DEG / 3.6
        slow = ctx.real('slow', pmax / 2, pmax)
        ref = ctx.real('ref', pmax / 2, pmax)
        m = SimpleModel(np.array(Z), np.array(VP), np.array(VS))
        # first layer in which a wave does not propagate
        last = len(Z) - 1
        for i in range(len(Z) - 1):
            stop = False
            for c, v in (('P', VP), ('S', VS)):
                if c in phase.upper():
                    for p in (slow, ref):
                        # keep away from grazing incidence
                        d = p - M.DEG / v[i]
                        ctx.assume(ctx.any_of([d < -1e-3, d > 1e-3]))
                        if d > 0:
                            stop = True
            if stop:
                last = i
                break
        t0, t1 = m.stretch_delay_times(slow, phase=phase, ref=ref)
        sg = -1. if phase[0].upper() == 'S' else 1.
        w0 = [sg * t for t in M.delay_times(
            Z[:last + 1], VP, VS, slow, phase)[1:]]
        w1 = [sg * t for t in M.delay_times(
            Z[:last + 1], VP, VS, ref, phase)[1:]]
        n = last
        check_table(ctx, phase, t0, t1, w0, w1,
                    n if n == len(Z) - 1 else n - 1, n)
    return fn


def odd(ctx):
    phase = ctx.choice('phase', ['P', 'S', 'Pps', 'Spp', 'Psp', 's', 'Ppsps'])
    m = SimpleModel(np.array(Z), np.array(VP), np.array(VS))
    slow = ctx.real('slow', 1, 8)
    ctx.raises('odd phase ' + phase, ValueError, m.stretch_delay_times, slow,
               phase=phase)
    ctx.raises('odd phase %s with reference' % phase, ValueError,
               m.stretch_delay_times, slow, phase=phase, ref=slow + 1.)


def support(nn, maxn, fromfile):
    """support points between depths of model"""
    def fn(ctx):
        z, vp, vs = [0.], [], []
        for i in range(nn - 1):
            z.append(z[-1] + ctx.real('h%d' % i, 0, 50))
        for i in range(nn):
            vp.append(ctx.real('vp%d' % i, 4, 9))
            vs.append(ctx.real('vs%d' % i, 2, 5))
        n = [0] + [ctx.integer('n%d' % i, 0, maxn) for i in range(1, nn)]
        kind = ctx.choice('kind', ['array', 'list']) if not fromfile else ''
        if fromfile:
            m = load(ctx, z, vp, vs, n)
        elif kind == 'array':
            m = SimpleModel(ctx.arr(z), ctx.arr(vp), ctx.arr(vs), np.array(n))
        else:
            m = SimpleModel(z, vp, vs, n)
        w = [[], [], []]
        for i in range(nn - 1):
            k = n[i + 1] + 1
            for j in range(k):
                for a, b in zip(w, (z, vp, vs)):
                    a.append(b[i] + (b[i + 1] - b[i]) * Fraction(j, k))
        ctx.arr_eq('depths', m.z, w[0])
        ctx.arr_eq('vp', m.vp, w[1])
        ctx.arr_eq('vs', m.vs, w[2])
        full = w[0] + [z[-1]]
        # thickness of the layers is observed by the delay times
        slow = 0.
        t = m.calculate_delay_times(slow, 'Ps')
        tt = 0.
        for i in range(len(w[0])):
            tt = tt + (full[i + 1] - full[i]) * (
                1. / w[2][i] - 1. / w[1][i])
            ctx.eq('vertical delay time %d' % i, t[i], tt, 1e-5)
    return fn


_count = itertools.count()


@contextlib.contextmanager
def model_file(ctx, z, vp, vs, n):
    """file name of model; the text file reader is a stub when symbolic"""
    d = tempfile.mkdtemp(prefix='c03')
    fname = os.path.join(d, 'model%d.dat' % next(_count))
    old = simple_model.np.loadtxt
    try:
        if ctx.sym:
            cols = [z, vp, vs] + ([n] if n is not None else [])

            def loadtxt(f, *args, **kw):
                if f != fname:
                    return old(f, *args, **kw)
                r = [ctx.arr(c) for c in cols]
                return r if kw.get('unpack') else ctx.arr(r).T
            simple_model.np.loadtxt = loadtxt
        else:
            M.write_model(fname, z, vp, vs, n)
        yield fname
    finally:
        simple_model.np.loadtxt = old
        shutil.rmtree(d)


def load(ctx, z, vp, vs, n):
    with model_file(ctx, z, vp, vs, n) as fname:
        return simple_model.load_model(fname)


def file3(ctx):
    """model file without number of support points"""
    z, vp, vs = sym_model(ctx, 2)
    m = load(ctx, z, vp, vs, None)
    ctx.arr_eq('depths', m.z, z[:-1])
    ctx.arr_eq('vp', m.vp, vp[:-1])
    ctx.arr_eq('vs', m.vs, vs[:-1])


ASSUMPTIONS = ['real arithmetic instead of floating point (tolerance 1e-6)',
               'square root is the exact real square root']


def cases(tier):
    b = ('thickness 1-50 km, vp 4-9, vs 2-5 km/s, slowness 0-20 s/deg with '
         'which all waves propagate')
    c = [Case('delay times 2 layers', delay(2, PHASES, True), b),
         Case('delay times 3 layers', delay(3, ['Ps', 'Sp', 'Ppps', 'Spss', 'Ppppps', 'Sspsps'],
                                            False), b),
         Case('table 2 layers', table(PHASES, 2), b + ', any reference'),
         Case('table 3 layers', table(['Ps', 'Sp', 'Ppss', 'Sppp'], 3), b),
         Case('odd number of legs', odd, 'slowness 1-8'),
         Case('support points', support(3, 2, False),
              '3 depths, up to 2 support points'),
         Case('support points from file', support(3, 2, True),
              '3 depths, up to 2 support points',
              stubs=['numpy.loadtxt returns symbolic columns']),
         Case('file without support points', file3, '2 layers',
              stubs=['numpy.loadtxt returns symbolic columns'])]
    for ph in ('Ps', 'Sp', 'Ppps', 'Spss'):
        c.append(Case('turning ' + ph, turning(ph),
                      '12 layers, all slownesses and references down to '
                      'half of the turning slowness of the second layer'))
    if tier == 'thorough':
        c.append(Case('delay times 5 layers', delay(5, PHASES, True), b,
                      time=400))
        c.append(Case('table 12 layers', table(['Ps', 'Sp'], 12), b,
                      time=600))
        c.append(Case('support points 4', support(4, 5, False), time=600,
                      bounds='4 depths, up to 5 support points'))
        for ph in ('Ppss', 'Ppps', 'Sppp', 'Spps', 'PP', 'SS'):
            c.append(Case('turning ' + ph + ' t', turning(ph), time=400))
    return c
