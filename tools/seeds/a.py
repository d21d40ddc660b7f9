HEAD = '''
import numpy as np
from obspy import UTCDateTime as UTC
from rf import RFStream
from rf.rfstream import RFTrace


def trace(id, data, onset, t0=0, sr=1., **kw):
    net, sta, loc, cha = id.split('.')
    t0 = UTC('2020-01-01') + t0
    h = dict(network=net, station=sta, location=loc, channel=cha,
             starttime=t0, sampling_rate=sr, onset=t0 + onset)
    h.update(kw)
    return RFTrace(np.array(data, dtype=float), header=h)


'''
SEEDS = [
 dict(id='s01', property='C01',
      edits=[('rf/simple_model.py', 'old_data, left=None, right=0.)', 'old_data)')],
      needs='moveout of a trace whose stretched data ends before the end of the window (slowness larger than the reference)',
      breaks='the end of the trace is filled with the last amplitude instead of zeros',
      demo=HEAD + '''
st = RFStream([trace('..', np.ones(101), 10, slowness=8.5, phase='P')])
'''.replace("'..'", "'...BHQ'") + '''
st.moveout(ref=4.5)
d = st[0].data
assert np.all(d[:60] == 1), d
assert d[-1] == 0, d
'''),
 dict(id='s02', property='C02',
      edits=[('rf/simple_model.py', '        self.t_ref = {}\n', ''),
             ('rf/simple_model.py', '    def __init__(self, z, vp, vs, n=None):', '    t_ref = {}  # cache for delay times of reference slowness\n\n    def __init__(self, z, vp, vs, n=None):')],
      needs='two velocity models used in the same process with the same phase and reference slowness',
      breaks='the second model stretches to delay times of the first one',
      demo='''
import numpy as np
from rf.simple_model import SimpleModel
z = np.arange(0., 100., 5)
def model(f):
    return SimpleModel(z, 6 * f + 0 * z, 3.5 * f + 0 * z)
a, b = model(1.), model(.8)
ta = a.stretch_delay_times(6., 'Ps', 6.4)[1]
tb = b.stretch_delay_times(6., 'Ps', 6.4)[1]
tb2 = b.calculate_delay_times(6.4, 'PS')
assert abs(tb[-1] - tb2[-1]) < 1e-8
assert abs(ta[-1] - tb[-1]) > 1
'''),
 dict(id='s04', property='C04',
      edits=[('rf/simple_model.py', "x = xp * phase.count('P') + xs * phase.count('S')", "x = xp * phase.count('P') + xs")],
      needs='piercing point of a multiple with more than one S leg',
      breaks='only one of the S legs is counted in the distance',
      demo='''
from rf.simple_model import load_model
m = load_model()
s = m.ppoint_distance(50, 6., 'S')
p = m.ppoint_distance(50, 6., 'P')
assert abs(m.ppoint_distance(50, 6., 'SPP') - s - 2 * p) < 1e-6
assert abs(m.ppoint_distance(50, 6., 'SSP') - 2 * s - p) < 1e-6
'''),
 dict(id='s05', property='C05',
      edits=[('rf/rfstream.py', '''            for stream3c in iter3c(self):
                stream3c.rotate(rotate)
''', '''            for stream3c in iter3c(self):
                stream3c.rotate(rotate)
                for tr in stream3c.select(component='Q'):
                    tr.data = -tr.data
'''), ('rf/rfstream.py', '''        for tr in self:
            if tr.stats.channel.endswith('Q'):
                tr.data = -tr.data
''', '')],
      needs='rf() with rotate=None for data which is already rotated to LQT',
      breaks='sign of the Q component is not reversed',
      demo=HEAD + '''
d = np.random.RandomState(1).rand(60)
st = RFStream([trace('N.S..BHL', d, 30), trace('N.S..BHQ', 2 * d, 30),
               trace('N.S..BHT', 3 * d, 30)])
st.rf('P', rotate=None, deconvolve=None)
assert np.allclose(st[0].data, d)
assert np.allclose(st[1].data, -2 * d)
assert np.allclose(st[2].data, 3 * d)
'''),
 dict(id='s07', property='C07',
      edits=[('rf/deconvolve.py', '    if src in rsp:\n', '    if response_components is None:\n')],
      needs='response components given explicitly and including the source component',
      breaks='the source among the responses is cut and tapered',
      demo=HEAD + '''
rs = np.random.RandomState(1)
st = RFStream([trace('N.S..BH' + c, rs.rand(80), 30) for c in 'LQT'])
st2 = st.copy()
from rf.deconvolve import deconvolve
a = deconvolve(st, 'time', winsrc=(-5, 20, 2))
b = deconvolve(st2, 'time', winsrc=(-5, 20, 2), response_components='LQT')
for tr1, tr2 in zip(a, b):
    assert len(tr1) == len(tr2) == 80
    assert np.allclose(tr1.data, tr2.data)
'''),
 dict(id='s10', property='C20',
      edits=[('rf/rfstream.py', '''                onset = tr.stats.onset - tr.stats.starttime
                tr2.stats.onset = tr2''', '''                onset = self[0].stats.onset - self[0].stats.starttime
                tr2.stats.onset = tr2''')],
      needs='stack of traces of different ids whose onsets lie at different times relative to the start',
      breaks='stacks get the relative onset of the first trace of the stream',
      demo=HEAD + '''
st = RFStream([trace('N.S1..BHL', np.arange(100), 30), trace('N.S2..BHL', np.arange(100), 20, t0=5),
               trace('N.S2..BHL', np.arange(100), 20, t0=50)])
for tr in st.stack():
    assert tr.stats.onset - tr.stats.starttime == {'S1': 30, 'S2': 20}[tr.stats.station]
'''),

 dict(id='s03', property='C03',
      edits=[('rf/simple_model.py', "if phase[0] == 'S':\n            t_ref = -t_ref", "if phase == 'SP':\n            t_ref = -t_ref")],
      needs='a multiple of an incident S wave, e.g. Sppp',
      breaks='sign of the times of S phases is only reversed for Sp',
      demo='''
from rf.simple_model import load_model
m = load_model()
for ph in ('Sp', 'Ssps', 'Sppp'):
    t, t_ref = m.stretch_delay_times(9., ph, 10.)
    t2 = m.calculate_delay_times(9., ph)
    assert abs(t[-1] + t2[len(t) - 10]) < 1e-6, (t, t2)
'''),
 dict(id='s06', property='C06',
      edits=[('rf/util.py', 'k = (tr.id[:-1], str(tr.stats[key]) if key is not None else None)', '''st = tr.stats
            k = (st.network, st.station, st.channel[:-1],
                 str(st[key]) if key is not None else None)''')],
      needs='receiver functions of two locations of the same station with the same onset',
      breaks='components of different locations are taken as one set',
      demo=HEAD + '''
rs = np.random.RandomState(1)
def event(loc):
    return [trace('N.S.%s.BH' % loc + c, rs.rand(80), 30) for c in 'LQ']
for l1, l2 in (('00', '10'), ('00', '')):
    a, b = event(l1)[:2], event(l2)[:2]
    one = RFStream([tr.copy() for tr in a]).rf('P', rotate=None, winsrc=(-5, 20, 2))
    both = RFStream([tr.copy() for tr in a + b]).rf('P', rotate=None, winsrc=(-5, 20, 2))
    for tr1, tr2 in zip(one, both):
        assert np.allclose(tr1.data, tr2.data)
'''),
 dict(id='s08', property='C08',
      edits=[('rf/deconvolve.py', 'a = _add_zeros(a, 2 * abs(zero_sample), 0)', 'a = _add_zeros(a, abs(zero_sample), 0)')],
      needs='a source window whose middle lies before the onset',
      breaks='receiver functions are shifted in time',
      demo=HEAD + '''
d = np.zeros(80)
d[26:34] = 1, -1, 2, 3, 5, 1, 1, 1
for win in ((-5, 5, 0), (-5, 15, 0), (-15, 5, 0), (-15, 4, 0)):
    st = RFStream([trace('N.S..BHL', d, 30), trace('N.S..BHQ', np.roll(d, 7), 30)])
    st.deconvolve('time', winsrc=win, solve_toeplitz='scipy')
    assert np.argmax(st[0].data) == 30
    assert np.argmax(st[1].data) == 37
'''),
 dict(id='s09', property='C15',
      edits=[('rf/rfstream.py', '''        for tr in self:
            t1 = tr._seconds2utc(starttime, reftime=reftime)
''', '''        for tr in self:
            if isinstance(reftime, str):
                reftime = tr.stats[reftime]
            t1 = tr._seconds2utc(starttime, reftime=reftime)
''')],
      needs='slice2 of a stream with traces with different reference times',
      breaks='all traces are cut relative to the reference time of the first trace',
      demo=HEAD + '''
st = RFStream([trace('N.S..BHL', np.arange(100), 30), trace('N.S..BHQ', np.arange(90), 20, t0=5)])
st2 = st.slice2(-5, 8, reftime='onset')
for tr, o in zip(st2, (30, 20)):
    assert tr.data[0] == o - 5
    assert tr.data[-1] == o + 8
'''),
]
