import os, runpy
HEAD = runpy.run_path(os.path.join(os.path.dirname(__file__), 'a.py'))['HEAD']
SEEDS = [
 dict(id='s12', property='C10',
      edits=[('rf/deconvolve.py', '        sumsq_i = 1\n', ''),
             ('rf/deconvolve.py', '    for c in range(ncomp):  # loop over the responses\n', '    sumsq_i = 1\n    for c in range(ncomp):  # loop over the responses\n')],
      needs='iterative deconvolution of several responses, the second one being as well explained by its first spike as the first one was at the end',
      breaks='iteration of the second response stops although the misfit still decreases',
      demo='''
import numpy as np
from rf.deconvolve import deconv_iterative
s = np.zeros(64); s[0] = 1
a = np.zeros(64); a[5] = 1; a[30] = .5
b = np.zeros(64); b[10] = 1
nit = deconv_iterative([a, b], s, 1., tshift=0, gauss=.3, itmax=50, minderr=5.)[1]
nit2 = deconv_iterative([b, a], s, 1., tshift=0, gauss=.3, itmax=50, minderr=5.)[1]
assert nit[0] == nit2[1] and nit[1] == nit2[0], (nit, nit2)
'''),
 dict(id='s13', property='C11',
      edits=[('rf/deconvolve.py', '        s0 = np.zeros(nft)\n', ''),
             ('rf/deconvolve.py', '    RF_out = np.zeros((ncomp, nft))\n', '    RF_out = np.zeros((ncomp, nft))\n    s0 = np.zeros(nft)\n')],
      needs='multitaper deconvolution of more than one component',
      breaks='noise power of earlier components is added to the one of later components',
      demo='''
import numpy as np
from rf.deconvolve import deconv_multitaper
rng = np.random.RandomState(3)
src = rng.rand(100) - .5
rsp = [rng.rand(200) - .5 for _ in range(2)]
nse = [rng.rand(200) - .5 for _ in range(2)]
kw = dict(normalize=None)
a = deconv_multitaper(rsp, src, nse, 10., 1., **kw)
b = deconv_multitaper(rsp[::-1], src, nse[::-1], 10., 1., **kw)
assert np.allclose(a[0], b[1]) and np.allclose(a[1], b[0])
'''),
 dict(id='s16', property='C14',
      edits=[('rf/rfstream.py', "if index is None and 'event_time' in self[0].stats:", "if index is None:")],
      needs='raw stream without event_time written to HDF5',
      breaks='event based index is used for a stream without events, writing fails',
      demo=HEAD + '''
import tempfile
from obspy import Trace
from rf import read_rf
st = RFStream([Trace(np.ones(5), dict(network='N', station='S', channel='BHZ'))])
with tempfile.TemporaryDirectory() as d:
    st.write(d + '/a.h5', 'H5')
    st2 = read_rf(d + '/a.h5')
assert st2[0].id == 'N.S..BHZ'
'''),
 dict(id='s27', property='C01',
      edits=[('rf/simple_model.py', 'index0 = int(floor((st.onset - st.starttime) * st.sampling_rate))', 'index0 = int(round((st.onset - st.starttime) * st.sampling_rate))')],
      needs='onset more than half a sample behind the last sample before it',
      breaks='amplitudes between the onset and the next sample are replaced',
      demo=HEAD + '''
d = np.zeros(60)
d[10] = 1.
# amplitude decreases linearly from 1 at -0.7 s to 0 at 0.3 s
st = RFStream([trace('...BHQ', d, 10.7, slowness=8., phase='P')])
ref = RFStream([trace('...BHQ', d, 10.7, slowness=8., phase='P')])
st.moveout(ref=2.)
ref[0].data[11] = 0
assert st[0].data[10] == 1
# sample at 0.3 s shows the amplitude recorded at a time different from 0.3 s
st2 = RFStream([trace('...BHQ', d, 10.7, slowness=2., phase='P')])
st2.moveout(ref=8.)
assert abs(st2[0].data[11]) > 1e-3 or abs(st[0].data[11]) > 1e-3, (st[0].data[9:14], st2[0].data[9:14])
'''),
 dict(id='s28', property='C02',
      edits=[('rf/simple_model.py', '            t_ref = -t_ref\n', '            t_ref *= -1\n')],
      needs='S receiver functions, second moveout with the same phase and reference',
      breaks='cached reference delay times change their sign with every call',
      demo='''
import numpy as np
from rf.simple_model import SimpleModel
z = np.arange(0., 100., 5)
m = SimpleModel(z, 6 + 0 * z, 3.5 + 0 * z)
r = [np.array(m.stretch_delay_times(9., 'Sp', 10.)[1]) for _ in range(3)]
assert np.allclose(r[0], r[1]) and np.allclose(r[0], r[2])
'''),
 dict(id='s29', property='C03',
      edits=[('rf/simple_model.py', "dt = (qp * phase.count('P') + qs * phase.count('S') -", "dt = (qp * (len(phase) - phase.count('S')) + qs * max(1, phase.count('S')) -")],
      needs='delay times of the phase Pppp which has no S leg',
      breaks='an S leg is counted',
      demo='''
import numpy as np
from rf.simple_model import SimpleModel
z = np.arange(0., 100., 5)
m = SimpleModel(z, 6 + 0 * z, 3.5 + 0 * z)
t = m.calculate_delay_times(6., 'SSSS')
t2 = m.calculate_delay_times(6., 'PPPP')
p = 6 / 111.2
assert np.allclose(np.diff(t2), 2 * 5 * np.sqrt(1 / 36. - p ** 2))
assert np.allclose(np.diff(t), 2 * 5 * np.sqrt(1 / 3.5 ** 2 - p ** 2))
'''),
 dict(id='s30', property='C04',
      edits=[('rf/simple_model.py', "        phase = phase.upper()\n        xp, xs = 0., 0.", "        xp, xs = 0., 0.")],
      needs='piercing points of a multiple given with lower case legs',
      breaks='lower case legs are not counted',
      demo='''
from rf.simple_model import load_model
m = load_model()
assert abs(m.ppoint_distance(50, 6., 'Spp') - m.ppoint_distance(50, 6., 'SPP')) < 1e-8
'''),
 dict(id='s31', property='C05',
      edits=[('rf/rfstream.py', "if tr.stats.channel.endswith('Q'):", "if 'Q' in tr.stats.channel:")],
      needs='channels with band or instrument code Q',
      breaks='all components change their sign',
      demo=HEAD + '''
rng = np.random.RandomState(1)
out = []
for band in ('BH', 'QH'):
    st = RFStream([trace('N.S..%s%s' % (band, c), np.sin(np.arange(60.) * (2 + i)) * (np.arange(60) > 30), 30, phase='P')
                   for i, c in enumerate('LQT')])
    st.rf(rotate=None, deconvolve='waterlevel', normalize=None, response_components='QT')
    out.append([tr.data for tr in st])
assert all(np.allclose(a, b) for a, b in zip(*out))
'''),
 dict(id='s32', property='C06',
      edits=[('rf/rfstream.py', "return IterMultipleComponents(stream, key='onset',", "return IterMultipleComponents(stream, key='starttime',")],
      needs='two sets of components which start at the same time but have different onsets, e.g. two events in the same window',
      breaks='sets with the same start time are mixed or left unprocessed',
      demo=HEAD + '''
rng = np.random.RandomState(1)
def make(on):
    return [trace('N.S..BH%s' % c, np.random.RandomState(on + i).rand(100), on, phase='P', back_azimuth=2. * on, inclination=20.)
            for i, c in enumerate('ZNE')]
both = RFStream(make(40) + make(50)).rf(deconvolve='waterlevel')
one = RFStream(make(40)).rf(deconvolve='waterlevel')
two = RFStream(make(50)).rf(deconvolve='waterlevel')
for tr, tr2 in zip(both, one + two):
    assert tr.id == tr2.id and np.allclose(tr.data, tr2.data)
'''),
 dict(id='s33', property='C07',
      edits=[('rf/deconvolve.py', "        tr.stats.onset = onset\n", "        tr.stats.onset = tr.stats.starttime + idx * src.stats.delta\n")],
      needs='components which start at slightly different times',
      breaks='onsets of the responses differ from the onset of the source',
      demo=HEAD + '''
rng = np.random.RandomState(1)
st = RFStream([trace('N.S..BHL', rng.rand(80), 40, phase='P'),
               trace('N.S..BHQ', rng.rand(80), 40.3, t0=-.3, phase='P')])
st.deconvolve(method='time', source_components='L', winsrc='P')
assert abs(st[0].stats.onset - st[1].stats.onset) < 1e-6
'''),
 dict(id='s34', property='C08',
      edits=[('rf/deconvolve.py', 'a = _add_zeros(a, (-dif + 1) // 2, (-dif) // 2)', 'a = _add_zeros(a, (-dif) // 2, (-dif + 1) // 2)')],
      needs='result length of other parity than the lengths of source and response, e.g. odd source window with an even response',
      breaks='result is shifted by one sample',
      demo=HEAD + '''
for n in (80, 81):
    for w in (5, 6, 7, 8):
        d = np.zeros(n)
        d[30:33] = [1, .5, .2]
        st = RFStream([trace('N.S..BHL', d, 30, phase='P'), trace('N.S..BHQ', np.roll(d, 5), 30, phase='P')])
        st.deconvolve(method='time', source_components='L', winsrc=(-3, w, 0), solve_toeplitz='scipy', spiking=.01)
        assert [np.argmax(tr.data) for tr in st] == [30, 35], (n, w, [np.argmax(tr.data) for tr in st])
'''),
 dict(id='s35', property='C12',
      edits=[('rf/deconvolve.py', '''    if normalize is not None:
        norm = 1 / np.max(np.abs(RF_out[normalize]))
        for RF in RF_out:
            RF *= norm

    if flag:''', '''    if normalize is not None:
        norm = 1 / np.max(RF_out[normalize])
        for RF in RF_out:
            RF *= norm

    if flag:''')],
      needs='iterative deconvolution with negative largest amplitude',
      breaks='normalisation to the largest positive amplitude',
      demo='''
import numpy as np
from rf.deconvolve import deconv_iterative
s = np.zeros(40); s[5] = 1
r = np.zeros(40); r[10] = -1; r[20] = .5
d = deconv_iterative([r], s, 1., tshift=0, gauss=.5)[0][0]
assert abs(np.abs(d).max() - 1) < 1e-8, np.abs(d).max()
'''),
 dict(id='s36', property='C18',
      edits=[('rf/util.py', "                           (not isinstance(n, int) and len(s) in n)]", "                           (not isinstance(n, int) and min(n) <= len(s) <= max(n))]")],
      needs='numbers of components given as a tuple with a number missing in between',
      breaks='substreams with a number of components which is not allowed are delivered',
      demo=HEAD + '''
from rf.util import IterMultipleComponents
st = RFStream([trace('N.S..BH' + c, [1, 2], 1) for c in 'ZN'] + [trace('N.T..BHZ', [1, 2], 1)])
assert [len(s) for s in IterMultipleComponents(st, number_components=(1, 3))] == [1]
'''),
 dict(id='s37', property='C15',
      edits=[('rf/rfstream.py', 'if isinstance(seconds, UTC) or reftime is None or seconds is None:', 'if isinstance(seconds, UTC) or reftime is None or not seconds:')],
      needs='window which starts or ends exactly at the reference',
      breaks='0 is not taken relative to the reference',
      demo=HEAD + '''
st = RFStream([trace('N.S..BHZ', np.arange(20), 7)])
try:
    st.trim2(0, 5, reftime='onset')
except Exception as ex:
    raise SystemExit(repr(ex))
assert list(st[0].data) == [7, 8, 9, 10, 11, 12], st[0].data
'''),
 dict(id='s38', property='C16',
      edits=[('rf/rfstream.py', "arrival = arrivals[0]", "arrival = min(arrivals, key=lambda a: a.ray_param)")],
      needs='distance at which travel time curve has several arrivals of the phase (triplication)',
      breaks='not the first arrival is used',
      demo='''
import warnings
from obspy.taup import TauPyModel
from rf.rfstream import rfstats
warnings.simplefilter('ignore')
class E(dict):
    pass
from obspy import UTCDateTime as UTC
from obspy.core import AttribDict
st = AttribDict(station_latitude=0., station_longitude=0., station_elevation=0., event_latitude=0.,
                event_longitude=18., event_depth=10., event_time=UTC(0), event_magnitude=5.)
s = rfstats(st, dist_range=None)
a = TauPyModel('iasp91').get_travel_times(10., s.distance, ('P',))
assert len(a) > 1
assert abs(s.onset.timestamp - min(x.time for x in a)) < 1e-3, (s.onset, a)
'''),
 dict(id='s39', property='C21',
      edits=[('rf/profile.py', 'length, width, offset=bins[i])', 'length, width, offset=bins[i] - min(bins[0], 0))')],
      needs='profile whose first bin edge is negative',
      breaks='boxes are shifted along the profile',
      demo='''
from rf import get_profile_boxes
b = get_profile_boxes((0, 0), 90, [-100, -50, 0, 50])
assert [x['pos'] for x in b] == [-75, -25, 25], [x['pos'] for x in b]
'''),
 dict(id='s40', property='C23',
      edits=[('rf/harmonics.py', "hd = np.real(hd)", "hd = np.abs(hd) * np.sign(np.real(hd[:1]))")],
      needs='frequency domain decomposition with harmonics of different signs',
      breaks='signs of harmonics',
      demo=HEAD + '''
trs = []
for i, baz in enumerate([10., 80., 130., 200., 250., 320.]):
    d = np.ones(4) * (1 - .5 * np.cos(np.radians(baz)))
    trs.append(trace('N.S..BHR', d, 1, back_azimuth=baz, event_time=UTC(1000 * i)))
a = RFStream(trs).harmonics(components='R', method='freq')
b = RFStream(trs).harmonics(components='R', method='time')
assert np.allclose([tr.data for tr in a], [tr.data for tr in b])
'''),
 dict(id='s41', property='C25',
      edits=[('rf/batch.py', "conf.update(kw)\n        kw = conf", "conf.update((k, v) for k, v in kw.items() if v)\n        kw = conf")],
      needs='option overwritten in Python by an empty or zero value',
      breaks='the value of the configuration file is used instead',
      demo='''
import json, os, tempfile
from unittest import mock
import rf.batch
with tempfile.TemporaryDirectory() as d:
    with open(d + '/conf.json', 'w') as f:
        json.dump({'phase': 'S', 'moveout': {'ref': 3}, 'rf': {'deconvolve': 'time'}}, f)
    with mock.patch('rf.batch.run_commands') as r:
        rf.batch.run('calc', conf=d + '/conf.json', rf={}, moveout={})
kw = r.call_args[1]
assert kw['rf'] == {} and kw['moveout'] == {}, kw
'''),
 dict(id='s42', property='C26',
      edits=[('rf/rfstream.py', "'profile': 'waveforms/{channel[2]}_{box_pos}'", "'profile': 'waveforms/{channel[2]}_{box_pos:.0f}'")],
      needs='profile with boxes whose positions differ by less than a kilometre written to HDF5',
      breaks='boxes use the same data set, so that some are lost',
      demo=HEAD + '''
import tempfile
from rf import read_rf
trs = [trace('...??Q'.replace('...', '.' * 3), [1. + i] * 4, 1, type='profile', box_pos=.6 + .2 * i) for i in range(2)]
with tempfile.TemporaryDirectory() as d:
    RFStream(trs).write(d + '/a.h5', 'H5')
    st = read_rf(d + '/a.h5')
assert sorted(tr.data[0] for tr in st) == [1, 2], st
'''),
 dict(id='s43', property='C19',
      edits=[('rf/util.py', "request_window = (-50, 150) if method == 'P' else (-100, 50)", "request_window = (-50, 150) if phase == 'P' else (-100, 50)")],
      needs='phase other than P which ends with P, e.g. PP',
      breaks='window of S waves is used',
      demo='''
from unittest import mock
from obspy import read_events, read_inventory
from pkg_resources import resource_filename
from rf.util import iter_event_data
ev = read_events(resource_filename('rf', 'example/example_events.xml'))[:1]
inv = read_inventory(resource_filename('rf', 'example/example_inventory.xml'))
w = []
def get(starttime, endtime, **kw):
    w.append(endtime - starttime)
list(iter_event_data(ev, inv, get, phase='PP', dist_range=(0, 180)))
assert len(w) == 1 and abs(w[0] - 220) < 1e-6, w
'''),
 dict(id='s44', property='C09',
      edits=[('rf/deconvolve.py', 'spec_src_water = np.abs(spec_src * spec_src_conj)', 'spec_src_water = np.abs(spec_src * spec_src)')],
      needs='nothing', breaks='nothing', demo='raise SystemExit(0)'),
]
SEEDS = [s for s in SEEDS if s['id'] not in ('s13', 's16', 's28', 's29', 's32', 's34', 's39', 's44')]
