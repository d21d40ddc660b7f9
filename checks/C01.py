"""C01 Moveout moves amplitudes to the reference delay times"""
import os
import shutil
import tempfile
import numpy as np
from rf import RFStream
from rf.simple_model import SimpleModel
from symrf.runner import Case
from checks import model as M
from checks.util import T0, trace, snap

Z = [0., 0., 20., 35., 80., 150., 250., 400., 600., 900.]
VP = [5.8, 5.8, 6.5, 8.0, 8.05, 8.2, 8.4, 8.6, 8.7, 8.8]
VS = [3.4, 3.4, 3.75, 4.45, 4.5, 4.5, 4.6, 4.7, 4.8, 4.9]



def table(phase, slow, ref, mod=(Z, VP, VS)):
    """delay times and reference delay times, mirrored to positive times"""
    S = phase[0].upper() == 'S'
    flip = S and len(phase) > 3
    sg = (-1. if S else 1.) * (-1. if flip else 1.)
    w0 = [sg * t for t in M.delay_times(*mod, slow, phase)[1:-1]]
    w1 = [sg * t for t in M.delay_times(*mod, ref, phase)[1:-1]]
    # same for negative times
    return ([-1. * t for t in w0[:0:-1]] + w0,
            [-1. * t for t in w1[:0:-1]] + w1, flip)


def check_moveout(ctx, label, out, data, off, delta, phase, slow, ref,
                  mod=(Z, VP, VS), tab=None):
    """statements about one trace, off: onset in seconds after start"""
    n = len(data)
    w0, w1, flip = tab or table(phase, slow, ref, mod)
    tau = [i * delta - off for i in range(n)]
    if flip:
        tau, data = [-1. * t for t in tau[::-1]], list(data)[::-1]
        out = list(out)[::-1]
    moved = []
    for t in tau:
        # samples after the onset and one before
        inside = t > -delta and t <= w0[-1]
        moved.append(M.interp(t, w0, w1) if inside else None)
    for j in range(n):
        t = tau[j]
        lab = '%s %s sample %d' % (label, phase, j)
        if t <= -delta:
            ctx.eq(lab + ' before onset', out[j], data[j])
            continue
        if t <= 0:
            # next to the onset
            if t >= 0:
                ctx.eq(lab + ' at onset', out[j], data[j])
            continue
        done = False
        for i in range(n - 1):
            a, b = moved[i], moved[i + 1]
            if a is None or b is None:
                continue
            if a <= t and t <= b:
                ctx.eq(lab, out[j], data[i] + (data[i + 1] - data[i]) *
                       ((t - a) / (b - a)), 1e-5)
                done = True
                break
        if done:
            continue
        last = moved[-1]
        if last is not None and t > last + 1e-3:
            ctx.eq(lab + ' behind end of data', out[j], 0.)


def grid(phases, n=12, deltas=(2.,), fracs=(0., .3, .75), first=(3,),
         slows=((4.4, 6.4), (8.2, 6.4), (6.4, 5.)), ntr=1):
    """symbolic data, concrete slownesses and onsets"""
    def fn(ctx):
        phase = ctx.choice('phase', phases)
        delta = ctx.choice('delta', deltas)
        model = SimpleModel(np.array(Z), np.array(VP), np.array(VS))
        trs, par = [], []
        for k in range(ntr):
            slow, ref = ctx.choice('slow%d' % k, slows)
            ref = 6.4 if ntr > 1 else ref
            i0 = ctx.choice('first%d' % k, first)
            frac = ctx.choice('frac%d' % k, fracs)
            if phase[0].upper() == 'S' and len(phase) > 3:
                i0 = n - 1 - i0 - (1 if frac else 0)
            off = delta * (i0 + frac)
            data = ctx.array('d%d_' % k, n)
            start = T0 + 100. * k
            trs.append(trace(data, start=start, sr=1. / delta, slowness=slow,
                             onset=start + off))
            par.append((list(data), off, slow, ref))
        st = RFStream(trs)
        before = [dict(tr.stats) for tr in st]
        model.moveout(st, phase=phase, ref=par[0][3])
        for k, (data, off, slow, ref) in enumerate(par):
            ctx.same('number of samples', len(st[k].data), n)
            check_moveout(ctx, 'trace %d' % k, st[k].data, data, off, delta,
                          phase, slow, ref)
            for h in ('starttime', 'endtime', 'onset', 'sampling_rate'):
                ctx.equal('header ' + h, st[k].stats[h], before[k][h])
    return fn


def onset(phases, n, i0, slows):
    """symbolic onset and data"""
    def fn(ctx):
        phase = ctx.choice('phase', phases)
        slow, ref = ctx.choice('slow', slows)
        delta = 4.
        off = ctx.real('off', i0 * delta, (i0 + 1) * delta)
        if phase[0].upper() == 'S' and len(phase) > 3:
            off = (n - 1) * delta - off
        # onset is not next to a sample (see grid for onset at a sample)
        r = off / delta
        ctx.assume(ctx.any_of([
            ctx.all_of([r - i >= 1e-3, r - i <= 1 - 1e-3])
            for i in range(n)]))
        model = SimpleModel(np.array(Z), np.array(VP), np.array(VS))
        data = ctx.array('d', n)
        tr = trace(data, sr=1. / delta, slowness=slow, onset=T0 + off)
        d = list(tr.data)
        model.moveout(RFStream([tr]), phase=phase, ref=ref)
        check_moveout(ctx, '', tr.data, d, off, delta, phase, slow, ref)
    return fn


def identity(phases, n):
    """reference slowness is the one of the trace"""
    def fn(ctx):
        phase = ctx.choice('phase', phases)
        slow = ctx.choice('slow', [3.3, 4.4, 5.1, 6.4, 8.2])
        delta = ctx.choice('delta', [1., 4.])
        off = ctx.choice('off', [0., 1., 1.7, n - 1., n - 1.4]) * delta
        model = SimpleModel(np.array(Z), np.array(VP), np.array(VS))
        data = ctx.array('d', n)
        tr = trace(data, sr=1. / delta, slowness=slow, onset=T0 + off)
        d = list(tr.data)
        model.moveout(RFStream([tr]), phase=phase, ref=slow)
        ctx.arr_eq('unchanged ' + phase, tr.data, d, 1e-5)
    return fn


class TableModel(SimpleModel):
    """model with given table of delay times"""

    def __init__(self, t0, t1):
        super(TableModel, self).__init__(np.array(Z), np.array(VP),
                                         np.array(VS))
        self.table = t0, t1
        self.calls = []

    def stretch_delay_times(self, slowness, phase='Ps', ref=6.4):
        self.calls.append((slowness, phase, ref))
        return self.table


def anytable(phases, n, knots, which, same=False):
    """moveout with any table of delay times (C03 decides the table)"""
    def fn(ctx):
        phase = ctx.choice('phase', phases)
        flip = phase == 'Spps'
        frac = ctx.choice('frac', [0., .4])
        delta = 2.
        con = [0.] + [3. + 7 * i for i in range(knots)]
        sym = [0.]
        for i in range(knots):
            # all delay times grow or shrink
            r = ctx.real('t%d' % i, 1., 7.)
            sym.append(sym[-1] + r)
        grow = ctx.choice('grow', [True, False])
        for a, b in zip(con[1:], sym[1:]):
            ctx.assume(a + .01 < b if (which == 0) != grow else b < a - .01)
        t0, t1 = (con, sym) if which == 1 else (sym, con)
        if same:
            t1 = t0
        k = len(t0) - 1
        w0 = [-1. * t for t in t0[:0:-1]] + t0
        w1 = [-1. * t for t in t1[:0:-1]] + t1
        off = delta * (1 + frac)
        if flip:
            off = (n - 1) * delta - off
        sg = -1. if flip else 1.
        slow = ctx.real('slow', 4., 9.)
        ref = ctx.real('ref', 4., 9.)
        model = TableModel(ctx.arr([sg * t for t in w0]),
                           ctx.arr([sg * t for t in w1]))
        data = ctx.array('d', n)
        tr = trace(data, sr=1. / delta, slowness=slow, onset=T0 + off)
        d = list(tr.data)
        model.moveout(RFStream([tr]), phase=phase, ref=ref)
        ctx.assume(len(model.calls) > 0)
        for i, (s, p, r) in enumerate(model.calls):
            ctx.eq('table for slowness of trace', s, slow)
            ctx.eq('table for reference slowness', r, ref)
            ctx.same('table for phase', p.upper(), phase.upper())
        if same:
            ctx.arr_eq('unchanged ' + phase, tr.data[:-1], d[:-1], 1e-5)
        check_moveout(ctx, '', tr.data, d, off, delta, phase, slow, ref,
                      tab=(w0, w1, flip))
    return fn


def headers(ntr):
    """RFStream.moveout: headers and default phase"""
    def fn(ctx):
        d = tempfile.mkdtemp(prefix='c01')
        try:
            fname = os.path.join(d, 'model.dat')
            M.write_model(fname, Z, VP, VS)
            rfphase = ctx.choice('rfphase', ['P', 'S', 'PP', 'SKS'])
            phase = ctx.choice('phase', [None, 'Ps', 'Ppps', 'Sp', 'Spps'])
            ref = ctx.choice('ref', [None, 6.4, 5.5])
            slow = [ctx.choice('slow%d' % i, [4.5, 6.4, 7.75])
                    for i in range(ntr)]
            data = [ctx.array('d%d_' % i, 8) for i in range(ntr)]
            off = 8. if phase == 'Spps' else 1.5
            trs = [trace(data[i], 'N.S%d..BHQ' % i, start=T0 + 50 * i,
                         sr=.5, slowness=slow[i], phase=rfphase, type='rf',
                         onset=T0 + 50 * i + off, event_magnitude=5.5,
                         distance=50. + i) for i in range(ntr)]
            before = [list(tr.data) for tr in trs]
            if ctx.boolean('corrected before'):
                trs[-1].stats.slowness_before_moveout = 7.1
                trs[-1].stats.moveout = 'Ppps'
            st = RFStream(trs)
            kw = {} if ref is None else {'ref': ref}
            if phase is not None:
                kw['phase'] = phase
            r = st.moveout(model=fname, **kw)
            ctx.true('returns stream', r is st)
            ref = 6.4 if ref is None else ref
            if phase is None:
                phase = {'P': 'Ps', 'S': 'Sp'}[rfphase[-1]]
            ctx.same('number of traces', len(st), ntr)
            for i, tr in enumerate(st):
                s = tr.stats
                ctx.same('moveout header', s.get('moveout'), phase)
                ctx.eq('slowness header', s.get('slowness'), ref)
                ctx.eq('slowness before', s.get('slowness_before_moveout'),
                       slow[i])
                ctx.same('phase', s.phase, rfphase)
                ctx.same('type', s.type, 'rf')
                ctx.eq('distance', s.distance, 50. + i)
                ctx.eq('magnitude', s.event_magnitude, 5.5)
                ctx.eq('start', s.starttime - T0, 50. * i)
                ctx.eq('onset', s.onset - T0, 50 * i + off)
                ctx.eq('rate', s.sampling_rate, .5)
                check_moveout(ctx, '', tr.data, before[i], off, 2., phase,
                              slow[i], ref)
        finally:
            shutil.rmtree(d)
    return fn


def outside(ctx):
    """onset outside of the data"""
    n = 5
    model = SimpleModel(np.array(Z), np.array(VP), np.array(VS))
    phase = ctx.choice('phase', ['Ps', 'Spps'])
    off = ctx.real('off', -20, 20)
    ntr = ctx.choice('ntr', [1, 2])
    for x in (0., 4.):
        d = off - x
        ctx.assume(ctx.any_of([d > 1e-3, d < -1e-3]))
    trs = [trace(np.arange(1., n + 1), slowness=6., onset=T0 + 2)
           for _ in range(ntr)]
    trs[-1].stats.onset = T0 + off
    st = RFStream(trs)
    if ctx.all_of([off >= 0, off <= 4]):
        model.moveout(st, phase=phase, ref=6.)
        ctx.arr_eq('data', st[-1].data, [1., 2., 3., 4., 5.])
    else:
        ctx.raises('onset outside', ValueError, model.moveout, st,
                   phase=phase, ref=6.)
        ctx.arr_eq('data', st[-1].data, [1., 2., 3., 4., 5.])


ASSUMPTIONS = ['real arithmetic instead of floating point',
               'delay times grow with depth']


def cases(tier):
    b = ('12 samples in [-10, 10] at 0.5 Hz, 10 layers, three pairs of '
         'slowness and reference, onsets at and between samples')
    sl = ((4.4, 6.4), (8.2, 6.4))
    c = [Case('P phases', grid(['Ps', 'Ppps', 'Ppss', 'PPSS', 'ps', 'PSPS',
                                 'ppps']),
              b),
         Case('S phases', grid(['Sp', 'Spps', 'Spss', 'sp', 'SpPs', 'spss']), b),
         Case('two traces', grid(['Ps', 'Sp', 'Spps'], ntr=2, n=7,
                                 deltas=(5.,), fracs=(0., .5)),
              '2 traces of 7 samples at 0.2 Hz'),
         Case('three traces', grid(['Ps', 'Spps'], ntr=3, n=5, deltas=(6.,),
                                   fracs=(.5,), slows=sl),
              '3 traces of 5 samples, equal and different slownesses'),
         Case('onset at ends', grid(['Ps', 'Spps'], n=5, deltas=(1., 6.),
                                    first=(0, 3, 4), fracs=(0.,)),
              '5 samples'),
         Case('two onsets at ends', grid(['Ps', 'Spps'], ntr=2, n=4,
                                         deltas=(6.,), first=(0, 1, 3),
                                         fracs=(0.,), slows=sl),
              '2 traces of 4 samples, onset of each one may be at its ends'),
         Case('long sampling interval', grid(['Ps', 'Ppps', 'Sp', 'Spps'],
                                             deltas=(.5, 8.), n=9),
              '9 samples at 2 Hz and 0.125 Hz'),
         Case('any onset P', onset(['Ps', 'Ppps'], 5, 1, sl),
              '5 samples, onset anywhere between second and third sample'),
         Case('any onset S', onset(['Sp', 'Spps'], 5, 1, sl),
              '5 samples, onset anywhere between two samples'),
         Case('any reference table', anytable(['Ps', 'Spps'], 5, 2, 1),
              '5 samples, table of 2 depths with any reference times'),
         Case('any delay table', anytable(['Ps', 'Spps'], 4, 2, 0),
              '4 samples, table of 2 depths with any delay times'),
         Case('same table', anytable(['Ps', 'Spps'], 5, 2, 1, same=True),
              '5 samples, any slowness, table of 2 depths'),
         Case('reference slowness', identity(['Ps', 'Sp', 'Spps', 'Ppss'],
                                             6), '6 samples, 5 slownesses'),
         Case('headers', headers(1), '1 trace of 8 samples'),
         Case('headers of two traces', headers(2), '2 traces of 8 samples',
              time=40),
         Case('onset outside', outside, '5 samples, onset -20 to 20 s')]
    if tier == 'thorough':
        c += [Case('P phases long', grid(
                  ['Ps', 'Ppps', 'Ppss', 'Pspp', 'PPPS', 'Psps'], n=30,
                  deltas=(1., 3.), first=(0, 5, 15),
                  slows=((4.4, 6.4), (8.2, 6.4), (6.4, 5.), (5.5, 9.))),
                  time=500),
              Case('S phases long', grid(
                  ['Sp', 'Spps', 'Spss', 'Ssps', 'Sspp', 'Spsp'], n=30,
                  deltas=(1., 3.), first=(0, 5, 15),
                  slows=((4.4, 6.4), (8.2, 6.4), (6.4, 5.), (5.5, 9.))),
                  time=500),
              Case('any onset long', onset(['Ps', 'Spps'], 8, 2, sl),
                   time=600),
              Case('any reference table long', anytable(['Ps', 'Spps'], 6, 3,
                                                        1), time=800),
              Case('any delay table long', anytable(['Ps', 'Spps'], 6, 3, 0),
                   time=800)]
    return c
