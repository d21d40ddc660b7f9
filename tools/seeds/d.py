import os, runpy
HEAD = runpy.run_path(os.path.join(os.path.dirname(__file__), 'a.py'))['HEAD']
SEEDS = [
 dict(id='s44', property='C05',
      edits=[('rf/rfstream.py', "tr.stats.channel.endswith('Q')", "'Q' in tr.stats.channel")],
      needs='channels whose band or instrument code is Q',
      breaks='sign of components other than Q is reversed',
      demo=HEAD + '''
d = np.arange(1., 21)
st = RFStream([trace('N.S..QH' + c, d, 10, phase='P') for c in 'LQT'])
st.rf(rotate=None, deconvolve=None)
for tr in st:
    assert np.all(tr.data == (-d if tr.stats.channel[-1] == 'Q' else d)), tr
'''),
 dict(id='s45', property='C05',
      edits=[('rf/rfstream.py', "kwargs.setdefault('winsrc', method)", "kwargs.setdefault('winsrc', self.method)")],
      needs='rf() called with a method different from the phase header',
      breaks='default source window of the other method is used',
      demo=HEAD + '''
from unittest import mock
st = RFStream([trace('N.S..BH' + c, np.random.rand(200), 50, phase='P') for c in 'LQT'])
with mock.patch('rf.rfstream.deconvolve', side_effect=lambda st, *a, **kw: st) as m:
    st.rf(method='S', rotate=None)
assert m.call_args[1]['winsrc'] == 'S', m.call_args
'''),
 dict(id='s46', property='C06',
      edits=[('rf/util.py', "str(tr.stats[key]) if key is not None", "str(tr.stats[key])[:19] if key is not None")],
      needs='two events with onsets at the same station within the same second',
      breaks='components of both events are mixed up',
      demo=HEAD + '''
np.random.seed(1)
def comps(t0):
    return [trace('N.S..BH' + c, np.random.rand(100), 50 + t0, phase='P', starttime=UTC('2020-01-01')) for c in 'LQ']
a, b = comps(0), comps(.4)
kw = dict(rotate=None, winsrc=(-5, 20, 5), solve_toeplitz='scipy')
ref = RFStream([tr.copy() for tr in a]).rf(**kw)
st = RFStream(a + b)
st.rf(**kw)
assert np.allclose(st[1].data, ref[1].data)
'''),
 dict(id='s47', property='C08',
      edits=[('rf/deconvolve.py', 'shift = int(round(tshift * sr - len(src) // 2))', 'shift = int(tshift * sr - len(src) // 2)')],
      needs='start of the source window between two samples and window shorter than twice the time before the onset',
      breaks='receiver functions are late by one sample',
      demo=HEAD + '''
d = np.zeros(300); d[100] = 1; d[101] = -.5
st = RFStream([trace('N.S..BHL', d, 10, sr=10, phase='P'), trace('N.S..BHQ', np.roll(d, 5), 10, sr=10, phase='P')])
st.deconvolve('time', winsrc=(-.57, .3, 0), spiking=.01, solve_toeplitz='scipy')
pos = np.argmax(np.abs(st[0].data)), np.argmax(np.abs(st[1].data))
assert pos[0] == 100 and pos[1] == 105, pos
'''),
 dict(id='s48', property='C18',
      edits=[('rf/util.py', "k = (tr.id[:-1], ", "k = (tr.id.rstrip('ZNERTLQ'), ")],
      needs='instrument code which is also the name of a component (e.g. mass position or tilt channels)',
      breaks='traces of different instruments are put into one substream',
      demo=HEAD + '''
from rf.util import IterMultipleComponents
st = RFStream([trace('N.S..' + c, np.ones(5), 1) for c in ('BNZ', 'BNE', 'BLZ', 'BLE')])
assert sorted(len(s) for s in IterMultipleComponents(st)) == [2, 2]
'''),
 dict(id='s49', property='C22',
      edits=[('rf/profile.py', 'key = (pos, comp)', 'key = (round(pos), comp)')],
      needs='boxes shorter than 1 km',
      breaks='traces of neighboured boxes are stacked together',
      demo=HEAD + '''
from rf.profile import get_profile_boxes
from rf.util import direct_geodetic
boxes = get_profile_boxes((0., 0.), 90, np.arange(0, 2.1, .5))
st = []
for p in (.25, .75, 1.25, 1.75):
    lat, lon = direct_geodetic((0., 0.), 90, p)
    st.append(trace('N.S..BHQ', np.ones(5), 1, pp_latitude=lat, pp_longitude=lon, phase='P'))
p = RFStream(st).profile(boxes)
assert len(p) == 4 and [tr.stats.num for tr in p] == [1] * 4, p
'''),
 dict(id='s50', property='C25',
      edits=[('rf/batch.py', "kw['boxes']['bins'] = np.linspace(*kw['boxbins'])", "kw['boxes'].setdefault('bins', np.linspace(*kw['boxbins']))")],
      needs='bins given in the options for boxes and boxbins on the command line',
      breaks='option boxbins is ignored',
      demo='''
from unittest import mock
import rf.batch
class Stop(Exception):
    pass
import obspy
from pkg_resources import resource_filename
inv = obspy.read_inventory(resource_filename('rf', 'example/example_inventory.xml'))
with mock.patch('rf.profile.get_profile_boxes', side_effect=Stop) as m:
    try:
        rf.batch.run_commands('profile', events=obspy.Catalog([]), inventory=inv, path_in='a', path_out='b',
                              boxes={'latlon0': (0, 0), 'azimuth': 90, 'bins': [0, 1]}, boxbins='[0, 10, 3]')
    except Stop:
        pass
assert list(m.call_args[1]['bins']) == [0, 5, 10], m.call_args
'''),
 dict(id='s51', property='C26',
      edits=[('rf/batch.py', "_TF = '.datetime:%Y-%m-%dT%H:%M:%S'", "_TF = '.datetime:%Y-%m-%dT%I:%M:%S'")],
      needs='two events 12 hours apart on the same day',
      breaks='files of the first event are overwritten by those of the second one',
      demo=HEAD + '''
import glob, tempfile
from rf.batch import write
with tempfile.TemporaryDirectory() as d:
    for h in (3, 15):
        st = RFStream([trace('N.S..BHZ', np.ones(5), 1, event_time=UTC(2020, 1, 1, h))])
        write(st, d + '/out', 'SAC')
    assert len(glob.glob(d + '/out/*/*.SAC')) == 2
'''),
 dict(id='s52', property='C01',
      edits=[('rf/rfstream.py', 'tr.stats.slowness_before_moveout = tr.stats.slowness', "tr.stats.setdefault('slowness_before_moveout', tr.stats.slowness)")],
      needs='second moveout correction of a trace with another reference',
      breaks='slowness before the correction is the one before the first correction',
      demo=HEAD + '''
st = RFStream([trace('N.S..BHQ', np.random.rand(100), 10, slowness=7., phase='P')])
st.moveout(ref=5.)
st.moveout(ref=6.)
assert st[0].stats.slowness_before_moveout == 5., st[0].stats
'''),
 dict(id='s53', property='C07',
      edits=[('rf/deconvolve.py', 'src.trim(onset + winsrc[0], onset + winsrc[1], pad=True, fill_value=0.)', 'src.trim(onset + winsrc[0], onset + winsrc[1], pad=winsrc[2] > 0, fill_value=0.)')],
      needs='source window which exceeds the data and is not tapered',
      breaks='source is not padded with zeros and starts late',
      demo=HEAD + '''
seen = []
def func(rsp, src, tshift):
    seen.append(src)
    return rsp
st = RFStream([trace('N.S..BH' + c, np.ones(30), 3, phase='P') for c in 'LQ'])
st.deconvolve('func', func=func, winsrc=(-5, 10, 0), normalize=None) if False else None
from rf.deconvolve import deconvolve
deconvolve(st, method='func', func=lambda rsp, src, tshift, **kw: func(rsp, src, tshift), winsrc=(-5, 10, 0))
assert len(seen[0]) == 16 and np.all(seen[0].data[:2] == 0), seen[0].data
'''),
 dict(id='s54', property='C24',
      edits=[('rf/imaging.py', 'latlons, names = zip(*list(set(data)))', 'names, latlons = zip(*{n: l for l, n in data}.items())')],
      needs='stations with the same code in different networks',
      breaks='one of the stations is missing in the map',
      demo=HEAD + '''
import matplotlib
matplotlib.use('Agg')
from rf.imaging import plot_stations
st = RFStream([trace('A.S..BHZ', np.ones(5), 1, station_latitude=1., station_longitude=2.),
               trace('B.S..BHZ', np.ones(5), 1, station_latitude=3., station_longitude=4.)])
class Ax(object):
    def __getattr__(self, name):
        return lambda *a, **kw: self.calls.append((name, a))
ax = Ax(); ax.calls = []
plot_stations(st, label_stations=False, ax=ax)
args = [a for name, a in ax.calls if name == 'scatter'][0]
assert sorted(args[1]) == [1., 3.], args
'''),
 dict(id='s55', property='C23',
      edits=[('rf/harmonics.py', "rfT = np.array([tr.data for tr in stream.select(channel='*T').sort(['event_time'])])", "rfT = np.array([tr.data for tr in stream.select(channel='*T').sort(['starttime'])])")],
      needs='transverse components whose order of start times differs from the one of the events',
      breaks='transverse components are paired with radial components of other events',
      demo=HEAD + '''
def tr(c, i, value, t0):
    return trace('N.S..BH' + c, np.ones(3) * value, 1, t0=t0, event_time=UTC(2020, 1, 1) + i, back_azimuth=40. * i)
R = [tr('R', i, np.cos(np.radians(40 * i)), i) for i in range(8)]
T = [tr('T', i, -np.sin(np.radians(40 * i)), -i) for i in range(8)]
hd = RFStream(R + T).harmonics(components='RT')
assert abs(hd[1].data[0] - 1) < 1e-6, hd[1].data
'''),
 dict(id='s56', property='C17',
      edits=[('rf/rfstream.py', "        if r is None:\n            raise ValueError('No origin ' + h)", "        if r is None or r != r:\n            raise ValueError('No origin ' + h)\n        if h == 'depth':\n            r = max(r, 0.)")],
      needs='event above sea level (negative depth)',
      breaks='depth is 0',
      demo='''
from obspy.core.event import Event, Magnitude, Origin
from obspy import UTCDateTime as UTC
from rf.rfstream import obj2stats
ev = Event(origins=[Origin(time=UTC(0), latitude=1, longitude=2, depth=-500.)], magnitudes=[Magnitude(mag=5.)])
assert obj2stats(event=ev)['event_depth'] == -.5
'''),
 dict(id='s57', property='C21',
      edits=[('rf/profile.py', "'latlon': direct_geodetic(start, azimuth, length/2)}", "'latlon': direct_geodetic(latlon0, azimuth, offset + length)}")],
      needs='any profile, attribute latlon of boxes',
      breaks='middle coordinates are those of the end of the box',
      demo='''
from rf.profile import get_profile_boxes
from rf.util import direct_geodetic
b = get_profile_boxes((10., 20.), 30., [0, 10, 30], width=50)[1]
ref = direct_geodetic((10., 20.), 30., 20.)

assert abs(b['latlon'][0] - ref[0]) < 1e-4 and abs(b['latlon'][1] - ref[1]) < 1e-4, b
'''),
 dict(id='s58', property='C19',
      edits=[('rf/util.py', 'origin_time = (event.preferred_origin() or event.origins[0])[\'time\']\n        try:', 'origin_time = event.origins[0][\'time\']\n        try:')],
      needs='event whose preferred origin is not the first one, station which changed in between',
      breaks='coordinates are those at the time of another origin',
      demo='''
from unittest import mock
from obspy import UTCDateTime as UTC
from obspy.core.event import Event, Magnitude, Origin
from rf.util import iter_event_data
o = [Origin(time=UTC(2020, 1, d), latitude=1, longitude=2, depth=500.) for d in (1, 2)]
ev = Event(origins=o, magnitudes=[Magnitude(mag=5.)])
ev.preferred_origin_id = o[1].resource_id
class Inv(object):
    def get_contents(self):
        return {'channels': ['N.S..BHZ']}
    def get_coordinates(self, seedid, time):
        times.append(time)
        raise ValueError
times = []
list(iter_event_data([ev], Inv(), None))
assert times == [UTC(2020, 1, 2)], times
'''),
 dict(id='s59', property='C10',
      edits=[('rf/deconvolve.py', 'mute_max = nfft if mute_shift else nfft - int(tshift*sampling_rate)', 'mute_max = nfft if mute_shift else nfft - int(round(tshift*sampling_rate))')],
      needs='time shift between two samples (source window starting between samples)',
      breaks='spikes before the start of the trace are possible',
      demo='''
import numpy as np
from rf.deconvolve import deconv_iterative
r = np.zeros(32); s = np.zeros(32)
s[8] = 1; r[0] = 1
# acausal delay -8 samples, shift of 7.6 samples: excluded by trace length
rf, nit, rms = deconv_iterative([r], s, 1., tshift=7.6, gauss=5., itmax=1, normalize=None)
assert rms[0][0] > .5, rms
'''),
 dict(id='s60', property='C16',
      edits=[('rf/rfstream.py', 'if dist_range and not dist_range[0] <= dist <= dist_range[1]:', 'if dist_range and not dist_range[0] <= round(dist, 2) <= dist_range[1]:')],
      needs='distance just outside of the interval',
      breaks='events outside the interval are accepted',
      demo='''
from unittest import mock
from rf import rfstats
from obspy import UTCDateTime as UTC
from obspy.core import AttribDict
s = AttribDict(station_latitude=0., station_longitude=0., event_latitude=0., event_longitude=40., event_depth=10., event_time=UTC(0))
with mock.patch('rf.rfstream.gps2dist_azimuth', return_value=(90.003 * 111200, 90., 270.)):
    assert rfstats(s) is None
'''),
]
