import os, runpy
HEAD = runpy.run_path(os.path.join(os.path.dirname(__file__), 'a.py'))['HEAD']
SEEDS = [
 dict(id='s11', property='C09',
      edits=[('rf/deconvolve.py', '_gauss_filter(dt, nfft, gauss, waterlevel=-700)', '_gauss_filter(dt, nfft, gauss, waterlevel=-7)')],
      needs='waterlevel deconvolution with a sampling rate which is large compared to the Gauss parameter',
      breaks='frequencies far above the corner are not removed anymore',
      demo='''
import numpy as np
from rf.deconvolve import deconv_waterlevel
rng = np.random.RandomState(4)
s = np.zeros(256); s[0] = 1
r = rng.rand(256)
d = deconv_waterlevel([r], s, 100., gauss=.5, tshift=0., normalize=None, nfft=256)[0].real
f = np.fft.fftfreq(256, .01)
want = np.fft.ifft(np.fft.fft(r) * np.exp(-.5 * (f / .5) ** 2)).real
assert np.abs(d - want).max() < 1e-6, np.abs(d - want).max()
'''),
 dict(id='s14', property='C12',
      edits=[('rf/deconvolve.py', "norm = 1 / np.max(np.abs(RF_list[normalize]))", "norm = 1 / np.max(RF_list[normalize])")],
      needs='time domain deconvolution whose selected trace has its largest amplitude with negative sign',
      breaks='largest amplitude of the normalised trace is not 1',
      demo='''
import numpy as np
from rf.deconvolve import deconv_time
s = np.array([0., 1., .2, 0., 0.])
r = np.array([0., 0., -1., .3, 0.])
d = deconv_time([r, s], s, 0, normalize=0, solve_toeplitz='scipy')
assert abs(np.abs(d[0]).max() - 1) < 1e-9, d
'''),
 dict(id='s15', property='C13',
      edits=[('rf/rfstream.py', "if format == 'sac' and '-12345' in str(value):", "if format == 'sac' and '12345' in str(value):")],
      needs='SAC file with a header value whose digits contain 12345',
      breaks='the header is missing after reading',
      demo=HEAD + '''
import tempfile
from rf import read_rf
st = RFStream([trace('N.S..BHZ', [1, 2, 3, 4], 1, slowness=6.25, station_elevation=12345.)])
with tempfile.TemporaryDirectory() as d:
    st.write(d + '/a.sac', 'SAC')
    st2 = read_rf(d + '/a.sac')
assert st2[0].stats.slowness == 6.25
assert st2[0].stats.station_elevation == 12345
'''),
 dict(id='s17', property='C16',
      edits=[('rf/rfstream.py', "arrival = arrivals[0]", "arrival = arrivals[-1]")],
      needs='event at a distance with several arrivals of the phase',
      breaks='ray parameters and onset of the last arrival are used',
      demo='''
from obspy import UTCDateTime as UTC
from obspy.core import AttribDict
from obspy.taup import TauPyModel
from rf import rfstats
from rf.util import DEG2KM
st = AttribDict(event_latitude=0., event_longitude=18., event_depth=10.,
                event_time=UTC(0), station_latitude=0., station_longitude=0.)
st = rfstats(st, phase='P', dist_range=(0, 180))
arr = TauPyModel('iasp91').get_travel_times(10., st.distance, ('P',))
assert len(arr) > 1
assert abs(st.onset - UTC(0) - arr[0].time) < 1e-5
assert st.slowness == arr[0].ray_param_sec_degree
'''),
 dict(id='s18', property='C17',
      edits=[('rf/rfstream.py', "        if r is None:\n            raise ValueError('No origin ' + h)", "        if not r:\n            raise ValueError('No origin ' + h)")],
      needs='event at the surface, the equator or the prime meridian',
      breaks='value of zero is refused as missing',
      demo='''
from obspy import UTCDateTime as UTC
from obspy.core.event import Event, Origin, Magnitude
from rf.rfstream import obj2stats
ev = Event(origins=[Origin(time=UTC(10), latitude=1., longitude=2., depth=0.)], magnitudes=[Magnitude(mag=5.)])
st = obj2stats(event=ev)
assert st.event_depth == 0
'''),
 dict(id='s19', property='C18',
      edits=[('rf/util.py', "str(tr.stats[key]) if key", "str(tr.stats[key])[:19] if key")],
      needs='traces with times which differ by less than a second',
      breaks='traces with different onsets are put into one substream',
      demo=HEAD + '''
from rf.util import IterMultipleComponents as I
st = RFStream([trace('N.S..BHZ', [1, 2, 3], 1.25), trace('N.S..BHN', [1, 2, 3], 1.25),
               trace('N.S..BHZ', [1, 2, 3], 1.5), trace('N.S..BHN', [1, 2, 3], 1.5)])
n = [len(s) for s in I(st, key='onset')]
assert n == [2, 2], n
'''),
 dict(id='s20', property='C19',
      edits=[('rf/util.py', "if any(isinstance(tr.data, np.ma.masked_array) for tr in stream):", "if isinstance(stream[0].data, np.ma.masked_array):")],
      needs='data with a gap in the second or third component only',
      breaks='streams with gaps are delivered',
      demo='''
import numpy as np
from obspy import UTCDateTime as UTC, Stream, Trace, read_events, read_inventory
from pkg_resources import resource_filename
from rf.util import iter_event_data
ev = read_events(resource_filename('rf', 'example/example_events.xml'))[:1]
inv = read_inventory(resource_filename('rf', 'example/example_inventory.xml'))
def get(network, station, location, channel, starttime, endtime, gap='Z'):
    st = Stream()
    for c in 'ZNE':
        n = int(endtime - starttime) + 1
        tr = Trace(np.ones(n), dict(network=network, station=station, location=location,
                                    channel=channel[:2] + c, starttime=starttime))
        if c == gap:
            m = starttime + 100
            st += Stream([tr.slice(None, m), tr.slice(m + 20, None)])
        else:
            st.append(tr)
    return st
assert len(list(iter_event_data(ev, inv, get))) == 0
assert len(list(iter_event_data(ev, inv, lambda **k: get(gap=None, **k)))) == 1
'''),
 dict(id='s21', property='C21',
      edits=[('rf/profile.py', "box['profile']['length'] = bins[-1] - bins[0]", "box['profile']['length'] = bins[-1]")],
      needs='profile whose first box does not start at the starting point',
      breaks='recorded length of the profile is wrong',
      demo='''
from rf.profile import get_profile_boxes
b = get_profile_boxes((10, 20), 30, [20, 30, 50])
assert b[0]['profile']['length'] == 30
'''),
 dict(id='s22', property='C22',
      edits=[('rf/profile.py', "key = (pos, comp)", "key = (round(pos), comp)")],
      needs='boxes whose middle positions differ by less than a kilometre',
      breaks='traces of neighboured boxes are stacked together',
      demo=HEAD + '''
from rf.profile import get_profile_boxes, profile
from rf.util import direct_geodetic
boxes = get_profile_boxes((10, 20), 90, [.4, .8, 2.])
trs = []
for i, x in enumerate([.6, 1.4]):
    lat, lon = direct_geodetic((10, 20), 90, x)
    trs.append(trace('N.S..BHQ', [1. + i] * 5, 2, pp_latitude=lat, pp_longitude=lon, slowness=6., phase='P'))
p = profile(RFStream(trs), boxes)
assert [tr.data[0] for tr in p] == [1, 2], p
'''),
 dict(id='s23', property='C23',
      edits=[('rf/harmonics.py', "                    stream.select(channel='*%s' % R).sort(['event_time'])])\n    # get", "                    stream.select(channel='*%s' % R)])\n    # get")],
      needs='stream whose traces are not sorted by event time',
      breaks='data are fitted with back azimuths of other events',
      demo=HEAD + '''
trs = []
for i, baz in enumerate([10., 80., 130., 200., 250., 320.]):
    d = np.ones(4) * np.cos(np.radians(baz))
    trs.append(trace('N.S..BHR', d, 1, back_azimuth=baz, event_time=UTC(1000 * ((5 * i + 3) % 7))))
h = RFStream(trs).harmonics(components='R')
assert np.allclose([tr.data[0] for tr in h], [0, 1, 0, 0, 0]), [tr.data[0] for tr in h]
'''),
 dict(id='s24', property='C24',
      edits=[('rf/imaging.py', "y = tr.times() - (tr.stats.onset - tr.stats.starttime)", "y = tr.times() - (profile[0].stats.onset - profile[0].stats.starttime)")],
      needs='profile of traces with different onsets relative to their start',
      breaks='traces are drawn at wrong times',
      demo=HEAD + '''
import matplotlib
matplotlib.use('Agg')
from rf.imaging import plot_profile
st = RFStream([trace('...??Q'.replace('...', 'N.S..'), [0, 0, 1, 0, 0, 0], 2 + i, box_pos=10. * i, box_length=10., num=1, type='profile') for i in range(2)])
fig = plot_profile(st, moveout_model=None)
for i, l in enumerate(fig.axes[0].lines[:2]):
    assert abs(l.get_ydata()[0] + 2 + i) < 1e-6, l.get_ydata()
'''),
 dict(id='s25', property='C25',
      edits=[('rf/batch.py', "kw['moveout']['phase'] = moveout_phase", "kw['moveout'].setdefault('phase', moveout_phase)")],
      needs='moveout phase given as option and in the nested settings of the configuration',
      breaks='option is ignored',
      demo=HEAD + '''
import os, tempfile
from unittest import mock
from rf import read_rf
from rf.batch import write, run_commands, FNAMES
from obspy import read_events, read_inventory
from pkg_resources import resource_filename
ev = read_events(resource_filename('rf', 'example/example_events.xml'))
inv = read_inventory(resource_filename('rf', 'example/example_inventory.xml'))
from rf.util import iter_event_metadata
m = list(iter_event_metadata(ev, inv))[0]
tr = trace('.'.join([m['network'], m['station'], m['location'], 'BHQ']), np.arange(200) % 7, 20,
           event_time=m['event_time'], slowness=7., phase='P')
with tempfile.TemporaryDirectory() as d:
    write(RFStream([tr]), d + '/a', 'SAC')
    run_commands('moveout', events=ev, inventory=inv, path_in=d + '/a', path_out=d + '/b', format='SAC',
                 moveout={'phase': 'Ps'}, moveout_phase='Ppps')
    st = read_rf(d + '/b/*/*.SAC')
assert st[0].stats.moveout == 'Ppps', st[0].stats.moveout
'''),
 dict(id='s26', property='C26',
      edits=[('rf/batch.py', "_TF = '.datetime:%Y-%m-%dT%H:%M:%S'", "_TF = '.datetime:%Y-%m-%dT%H:%M'")],
      needs='two events within the same minute',
      breaks='files of the first event are overwritten by those of the second one',
      demo=HEAD + '''
import glob, tempfile
from rf.batch import write
with tempfile.TemporaryDirectory() as d:
    for i in (10, 40):
        write(RFStream([trace('N.S..BHZ', [1, 2, 3], 1, event_time=UTC(2020, 1, 1) + i)]), d, 'SAC')
    assert len(glob.glob(d + '/*/*.SAC')) == 2
'''),
]
