#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that edits stay reviewable)."""
import json, os

P = []


def add(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': qtext},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                    'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                    'observe_at': list(observe), 'hook_needed': hook}})


add('C01', 'Moveout moves amplitudes to the reference delay times',
    "Moveout correction moves the amplitude recorded at the delay time which a converted phase or multiple has for the "
    "slowness of the trace to the delay time which it has for the reference slowness, interpolating linearly between "
    "samples, so that a trace already recorded at the reference slowness is left unchanged. "
    "This holds as long as the delay times of the phase grow with depth. A sample at the onset and all samples on the side of the onset where the corrected phase does not arrive are left "
    "unchanged (except for the sample next to an onset which lies between two samples), stretched data that runs out at the end of the window is filled with zeros, and number of samples and time axis are kept. "
    "Afterwards the headers of every trace record the phase, the reference slowness and the slowness before the correction "
    "(the default phase is Ps for P and Sp for S receiver functions), and a trace whose onset lies outside its data is refused with a ValueError.",
    ['inputs', 'configurations'],
    "all sample values, all onset positions relative to the sampling grid, all phases (conversions and multiples of P and S), traces slower and faster than the reference",
    "The tests compare five traces of one waveform for P phases with stored numbers to 2 decimals; no S multiple, no sub-sample onset, no arbitrary data.",
    ['rf/simple_model.py', 'rf/rfstream.py'],
    [('SimpleModel.moveout', 'rf/simple_model.py'), ('SimpleModel.stretch_delay_times', 'rf/simple_model.py'),
     ('RFStream.moveout', 'rf/rfstream.py')],
    observe=['data and stats of the traces after RFStream.moveout'])

add('C02', 'Velocity model results do not depend on earlier calls',
    "Delay times, moveout corrections and piercing points depend only on the arguments of the call and the velocity model: "
    "whatever reference slownesses, phases, slownesses or depths were used before with the same or another model in the same process, "
    "the result is the one a fresh process would give.",
    ['histories', 'inputs'],
    "all sequences of calls, all pairs of reference slownesses, slownesses, depths and phases",
    "Every test uses the default reference slowness and a fresh comparison; no test calls the shared, cached model twice with different arguments.",
    ['rf/simple_model.py'],
    [('cache of reference delay times', 'rf/simple_model.py SimpleModel.stretch_delay_times'),
     ('cache of models by file name', 'rf/simple_model.py load_model')],
    state=[('t_ref', 'reference delay times already calculated', 'SimpleModel'), ('_MODEL_CACHE', 'loaded models', 'rf/simple_model.py')],
    observe=['return values of calculate_delay_times/stretch_delay_times/ppoint_distance, data after moveout'])

add('C03', 'Delay times follow ray theory in every layered model',
    "For every layered model and every slowness with which both waves propagate, the delay time of a converted phase or multiple grows across each layer by the layer thickness times "
    "the sum of the vertical slownesses of its P and S legs minus two legs of the incident wave, with vertical slowness sqrt(1/v^2 - p^2) and 111.2 km per degree. "
    "The table used for stretching pairs, at every depth, the delay time for the slowness of the trace with the one for the reference slowness; times of S phases have reversed sign; it ends before the depth at which the wave turns; and phases with an odd number of legs are refused with a ValueError. "
    "Support points requested between two depths of a model divide the interval evenly with linearly interpolated velocities.",
    ['inputs', 'configurations'],
    "all layer thicknesses, velocities, slownesses and reference slownesses, all phase names up to four legs, all numbers of support points within the bound",
    "Tests run the built-in model only, with two slownesses and four phases.",
    ['rf/simple_model.py'],
    [('SimpleModel.calculate_vertical_slowness / calculate_delay_times / stretch_delay_times', 'rf/simple_model.py'), ('support points', 'rf/simple_model.py _interpolate_n, SimpleModel.__init__, load_model')],
    observe=['return values of calculate_vertical_slowness, calculate_delay_times, stretch_delay_times'])

add('C04', 'Piercing points lie where the ray crosses the depth',
    "The horizontal distance between station and piercing point at a depth is the sum over the layers above that depth of thickness times p/q for every leg of the phase, with linear interpolation inside a layer, hence zero at the surface. "
    "The piercing point is reached from the station by going that distance in the direction of the back azimuth, its latitude, longitude and depth are written to the headers and returned one row per trace in stream order as (latitude, longitude), "
    "the default leg is S for P receiver functions and P for S receiver functions, and phases with an even number of legs are refused with a ValueError.",
    ['inputs', 'configurations'],
    "all layered models, slownesses, depths, phases up to three legs, station coordinates and back azimuths",
    "Tests check one depth at 5 % and two depths at 10-20 % accuracy against other programs, for one ray direction.",
    ['rf/simple_model.py', 'rf/rfstream.py', 'rf/util.py'],
    [('SimpleModel.ppoint_distance / ppoint', 'rf/simple_model.py'), ('RFStream.ppoints', 'rf/rfstream.py'), ('direct_geodetic', 'rf/util.py')],
    observe=['return values of ppoint_distance, ppoint, RFStream.ppoints; pp_* headers'])

add('C05', 'rf() applies the right polarity, mirroring and bookkeeping',
    "Apart from the requested filter, trim, downsampling, rotation and deconvolution (performed in this order), rf() reverses the sign of Q components exactly once before the deconvolution and of no other component. "
    "For S receiver functions every trace is additionally mirrored so that the amplitude at time t relative to the onset is afterwards found at time -t relative to the new onset header, while P receiver functions are not mirrored. "
    "All traces are marked as type 'rf' with a phase of the chosen method, the source component defaults to L/Z for P and Q/R for S, the method defaults to the one of the phase header, the onset used is the one of the trace, results returned by a custom deconvolution function become the stream's traces, and an unknown method is refused with a ValueError.",
    ['inputs', 'configurations'],
    "all sample values, onset positions, methods P and S, component sets LQT, ZRT and two-component streams, all subsets of the optional steps",
    "Tests look at the position of one maximum of the example data per method.",
    ['rf/rfstream.py'],
    [('RFStream.rf', 'rf/rfstream.py')],
    observe=['data, onset, type and phase of the traces after RFStream.rf', 'calls of filter/trim2/decimate/rotate/deconvolve'])

add('C06', 'Receiver functions of one event are independent of the others',
    "In a stream with several events, stations or locations, rf() rotates and deconvolves each set of components with the same seed id (up to the component) and the same onset on its own, so each receiver function equals the one obtained from a stream with only that set. "
    "Neither the data of other sets nor the order of the traces in the stream changes it.",
    ['inputs', 'configurations', 'histories'],
    "all sample values and angles of the other sets, all trace orders, sets that share the onset or share the station",
    "The example stream is processed in one fixed order and never compared with the processing of a single event.",
    ['rf/rfstream.py', 'rf/util.py', 'rf/deconvolve.py'],
    [('iter3c in RFStream.rf', 'rf/rfstream.py'), ('IterMultipleComponents', 'rf/util.py')],
    observe=['data of the traces after RFStream.rf'])

add('C07', 'Deconvolution uses the right source, window and responses',
    "deconvolve() takes as source the single trace whose component is one of the source components (anything but exactly one is refused with a ValueError), as responses the traces whose component is one of the response components (all by default; not between one and three is refused with a ValueError), and refuses unknown methods with NotImplementedError. "
    "The onset of the source is moved to the nearest sample and this onset is given to all responses; the source wavelet is the source trace cut to the requested or default window relative to that onset, padded with zeros outside the data and tapered at both ends, and the source among the responses is not cut. "
    "Results are normalised to the source component when it is among the responses and no normalisation was requested; the results keep order, components and length of the responses.",
    ['inputs', 'configurations'],
    "all sample values, all onset positions within and around the sampling grid, all source windows, all component subsets and trace orders",
    "Tests use three components of the example data with a handful of windows and look at the position of the maximum.",
    ['rf/deconvolve.py'],
    [('deconvolve', 'rf/deconvolve.py'), ('__find_nearest', 'rf/deconvolve.py')],
    observe=['arguments seen by a custom deconvolution function, headers and data of the result'])

add('C08', 'Time domain deconvolution solves its damped normal equations',
    "Without normalisation, time domain deconvolution returns the vector x that solves (A + spiking*I) x = c, where A is the Toeplitz autocorrelation matrix of the source divided by its zero lag and c the cross-correlation of response and source, aligned so that a response equal to the source delayed by k samples gives its peak k samples after the requested zero time. "
    "This holds for every requested result length, source length and shift.",
    ['inputs', 'configurations'],
    "all sample values of source and response, source and response lengths of either parity, shifts of either sign, all positive spiking values",
    "Tests check the position of one maximum; the fallback solver is only run on the example data.",
    ['rf/deconvolve.py'],
    [('deconv_time', 'rf/deconvolve.py'), ('_acorrt, _xcorrt, _add_zeros', 'rf/deconvolve.py'), ('shift in deconvolve', 'rf/deconvolve.py')],
    observe=['return value of deconv_time, data after deconvolve(method="time")'])

add('C09', 'Waterlevel deconvolution is the documented spectral division',
    "Without normalisation, waterlevel deconvolution returns the inverse transform of gauss * shift * R * conj(S) / max(|S|^2, waterlevel * max|S|^2), cut to the requested length, where the shift moves delay time zero to the requested time and the Gaussian has the value exp(-0.5) at its parameter frequency. "
    "With normalisation the maximum of the selected trace (or of the deconvolved source) is 1 and all traces are scaled by the same factor.",
    ['inputs', 'configurations'],
    "all sample values of the responses, several sources including ones with spectral holes, all water levels, all lengths and FFT lengths within the bound",
    "Tests check the position of one maximum for two window settings.",
    ['rf/deconvolve.py'],
    [('deconv_waterlevel', 'rf/deconvolve.py'), ('_gauss_filter, _phase_shift_filter', 'rf/deconvolve.py')],
    observe=['return value of deconv_waterlevel'])

add('C10', 'Iterative deconvolution never increases the misfit',
    "Iterative deconvolution adds one spike per iteration at the largest remaining correlation, so that the reported misfit never increases from one iteration to the next, the predicted response is the convolution of spikes and filtered source, and the misfit reported equals the energy of response minus prediction divided by that of the response. "
    "It performs at most the requested number of iterations, stops when the misfit changes by less than the requested percentage, puts no spike at delay times excluded by the trace length or by muting, and finds a response that is a scaled and delayed source in one iteration.",
    ['inputs', 'configurations'],
    "all sample values of the responses, all iteration limits within the bound, all thresholds, both muting modes",
    "Tests check the position of the maximum of two examples.",
    ['rf/deconvolve.py'],
    [('deconv_iterative', 'rf/deconvolve.py'), ('_apply_filter', 'rf/deconvolve.py')],
    observe=['return values of deconv_iterative (RF, iterations, rms)'])

add('C11', 'Multitaper deconvolution is linear and in time',
    "For fixed source and noise, unnormalised multitaper deconvolution is linear in each response component and does not mix components or their noise: it returns, as long as the response and with delay time zero at the onset, the cross spectrum of tapered source and tapered response divided by the power of the tapered source plus that of the tapered noise of the same component, Gaussian filtered. "
    "A common factor on source and noise divides the result by this factor; a normalised result has largest absolute amplitude 1 in the selected trace and one common factor. If no noise is given it is taken from the same traces, from their start to 5 s before the onset.",
    ['inputs', 'configurations'],
    "all sample values of the responses for several sources and noise windows, one to three components",
    "One test compares the position of one maximum and its value to 4 decimals.",
    ['rf/deconvolve.py'],
    [('deconv_multitaper', 'rf/deconvolve.py'), ('noise window in deconvolve', 'rf/deconvolve.py')],
    observe=['return value of deconv_multitaper'])

add('C12', 'Deconvolution scales linearly and leaves its inputs alone',
    "For every deconvolution method each unnormalised result depends only on the source and its own response and is proportional to it, and with normalisation the largest amplitude of the selected trace is 1 and all results share one factor, so that common gains of responses cancel. "
    "Passing a single array gives the same result as a list with this array, normalisation can be switched off in every call form, and the arrays passed in are not modified.",
    ['inputs', 'configurations'],
    "all sample values of the responses, all gains, all choices of the normalisation index, list and single-array call forms, time, waterlevel and iterative method",
    "No test scales, permutes or reuses inputs or uses the single array form.",
    ['rf/deconvolve.py'],
    [('deconv_time, deconv_waterlevel, deconv_iterative', 'rf/deconvolve.py')],
    observe=['return values and arguments of the deconvolution functions'])

add('C13', 'Receiver function headers survive SAC and Q files',
    "Every documented header which is set is written to the field of the SAC or SH/Q header given in the documented table and read back with the same value into the same header, for every combination of headers present; absolute times are stored relative to the SAC reference time and restored from it. "
    "Headers which are not set do not appear after reading, undefined SAC values are not taken as data, and headers without their own SH/Q field all travel together in the comment.",
    ['inputs', 'configurations'],
    "all header values and all subsets of headers, both formats, with and without SeismicHandler compatibility",
    "Tests write one fixed full set of values and compare to 2 decimals.",
    ['rf/rfstream.py'],
    [('RFTrace._write_format_specific_header / _read_format_specific_header', 'rf/rfstream.py'), ('_HEADERS, _FORMATHEADERS, _HEADER_CONVERSIONS', 'rf/rfstream.py')],
    observe=['stats.sac / stats.sh before writing, stats after reading'])

add('C14', 'Writing a stream does not disturb it, even when it fails',
    "After write() returns or raises, in any format and for any number of traces, data, seed ids and documented headers of the stream are what they were before, and the process-wide index setting of the HDF5 plugin is restored. "
    "While a Q file is written each trace carries its full seed id in the station field, and while an HDF5 file is written the index fits the type of the stream (event based for receiver functions, box based for profiles).",
    ['fault_sequences', 'inputs', 'configurations'],
    "all formats, all stream types, any failure of the underlying writer, all seed ids",
    "Tests only write successfully and do not look at the stream afterwards.",
    ['rf/rfstream.py'],
    [('RFStream.write, RFTrace.write', 'rf/rfstream.py')],
    state=[('obspyh5._INDEX', 'index used for new HDF5 datasets', 'obspyh5')],
    observe=['stream before and after write', 'stream seen by the format writer'])

add('C15', 'trim2 and slice2 cut relative to each trace\'s own reference',
    "trim2 and slice2 with a reference time cut every trace to the samples between reference plus start and reference plus end, where a reference given by name is the header of that very trace, absolute times and None are used as they are, and the onset and other headers keep their absolute values. "
    "Traces left without samples are dropped (kept by slice2 on request), order is kept, trim2 works in-place and slice2 leaves the original untouched.",
    ['inputs', 'configurations'],
    "all reference times and window ends relative to the sampling grid, per-trace different references, all forms of arguments",
    "Tests cut the example stream once with whole seconds relative to start or end time.",
    ['rf/rfstream.py'],
    [('RFStream.trim2, RFStream.slice2', 'rf/rfstream.py'), ('RFTrace._seconds2utc', 'rf/rfstream.py')],
    observe=['start, end, data and headers of the traces'])

add('C16', 'rfstats stores ray parameters and filters by distance',
    "rfstats computes distance and back azimuth from station to event and, for the requested phase at that distance and event depth, takes incidence angle, ray parameter in s/deg and onset (event time plus travel time) of the first arrival into the headers. "
    "None is returned exactly when the distance lies outside the closed interval (by default 30-90 degrees for P and 50-85 degrees for S; no filter if the interval is empty), a stream keeps in order exactly the traces within the interval, and a missing default interval or arrival is an error. "
    "If a piercing point depth is given the piercing point is added for the S leg of P phases and the P leg of S phases unless specified otherwise.",
    ['inputs', 'configurations'],
    "all distances, azimuths, arrivals, event depths and times, all intervals including their end points, stats, stream and event/station call forms",
    "One event-station pair is tested.",
    ['rf/rfstream.py'],
    [('rfstats', 'rf/rfstream.py')],
    observe=['stats returned or modified', 'arguments passed to the travel time and geodesic routines'])

add('C17', 'Event and station metadata are mapped to the right headers',
    "Event headers come from the preferred origin and magnitude, or from the first ones if none is preferred: latitude, longitude, depth converted from metres to kilometres, origin time, magnitude and event id; station headers are latitude, longitude and elevation. "
    "A missing origin, magnitude or a missing origin value - but never a value of zero - is refused with a ValueError naming it, and without event or station the respective headers are absent.",
    ['inputs', 'configurations'],
    "all coordinate, depth, magnitude and time values including zero, presence or absence of every part of the event",
    "One complete event and four incomplete ones are tested, none with zero values.",
    ['rf/rfstream.py'],
    [('obj2stats', 'rf/rfstream.py'), ('__get_event_origin_prop and getters', 'rf/rfstream.py')],
    observe=['stats returned by obj2stats and rfstats'])

add('C18', 'Component iteration partitions the stream',
    "IterMultipleComponents puts two traces into the same substream exactly when their seed ids agree up to the component and the values of the key header agree, every trace being in at most one substream and in exactly one if the number of components is not restricted. "
    "Only substreams with an allowed number of components are delivered, traces are the original objects in stream order, the stream is not modified, the length is the number of substreams, and iteration can be repeated.",
    ['inputs', 'configurations'],
    "all seed ids built from a small alphabet, all equality patterns of the key header, all component counts and restrictions, all orders up to the bound",
    "It is only used indirectly on one stream with three complete events.",
    ['rf/util.py'],
    [('IterMultipleComponents', 'rf/util.py')],
    observe=['iterated substreams'])

add('C19', 'Event iteration survives faults and delivers only complete data',
    "iter_event_data visits every pair of event and station once, in order, asks for the data of the requested window around the onset extended by the padding, and yields exactly those pairs for which coordinates, ray parameters within the distance range and three gapless component traces are available. "
    "Yielded traces are cut to the requested window without padding (by default -50 to 150 s for P, -100 to 50 s for S) and carry the headers of their own pair; an unavailable station, failing ray parameter calculation, failing or empty data request (also through the batch data source) skips only that pair. "
    "iter_event_metadata delivers seed id parts and event time of every pair.",
    ['fault_sequences', 'inputs', 'configurations'],
    "all fault patterns over the event-station pairs, all window and padding values",
    "Tests run it with complete example data only.",
    ['rf/util.py', 'rf/batch.py'],
    [('iter_event_data, iter_event_metadata, _get_stations', 'rf/util.py'), ('init_data wrapper', 'rf/batch.py')],
    observe=['requests made and streams yielded'])

add('C20', 'Stacking averages exactly the traces with the same id',
    "stack() returns one trace per seed id whose samples are the arithmetic mean of all traces with this id and of no others, independent of the order of the traces. "
    "Sampling rate, onset relative to start, phase, moveout and station coordinates of a stacked trace are those of traces with its id, and the input stream is not modified. Traces of one id with different numbers of samples are refused, no trace is left out silently.",
    ['inputs', 'configurations'],
    "all sample values, numbers of traces and ids within the bound, all orders, streams with several stations",
    "Tests stack the example stream of one station and look at the position of one maximum.",
    ['rf/rfstream.py'],
    [('RFStream.stack', 'rf/rfstream.py')],
    observe=['traces of the stack'])

add('C21', 'Profile boxes tile the profile',
    "The boxes of a profile are consecutive: box i spans exactly the distances from bin edge i to edge i+1 along the azimuth from the starting point and half the width to both sides, with length and middle position (in km from the starting point) and middle coordinates in its attributes, and the first box records coordinates, azimuth, length and width of the whole profile. "
    "A point strictly inside such a box is assigned to this box and a point outside of all boxes to none.",
    ['inputs', 'configurations'],
    "all increasing bin edges, widths, starting points and points to be located, azimuths along the axes, on a plane Earth",
    "One set of equidistant boxes is created and three box positions are looked at.",
    ['rf/profile.py', 'rf/util.py'],
    [('get_profile_boxes, _get_box, _find_box', 'rf/profile.py')],
    observe=['corner points and attributes of the boxes, box found for a point'])

add('C22', 'A profile stacks each trace once into its own box',
    "profile() returns one trace per box and component that received data: the mean of exactly the traces of this component whose piercing point is in this box, together with their number, box position, length and coordinates, profile attributes and onset relative to start. "
    "Traces outside all boxes are ignored, the order of the input does not matter, results are sorted by component and position and marked as type 'profile', and the input stream is not modified.",
    ['inputs', 'configurations'],
    "all sample values, all assignments of piercing points to boxes, components and orders within the bound, streams and iterators",
    "One profile with doubled traces is calculated and only header strings are compared.",
    ['rf/profile.py'],
    [('profile', 'rf/profile.py')],
    observe=['traces of the profile'])

add('C23', 'Harmonic decomposition recovers harmonics and pairs components',
    "If the receiver functions are constant + cos + sin + cos2 + sin2 terms of back azimuth minus azimuth (for two components the transverse ones being the corresponding 90 degree rotated terms and the constants weighted by the scalars), harmonics() returns these terms exactly in the order constant, cos, sin, cos2, sin2, modelled then unmodelled, in time as in frequency domain. "
    "In general the result is the least squares fit, is linear in the data and independent of the order of the traces, the components of one event being paired by event time. "
    "Five traces are returned for one and ten for two components, all labelled with term, channel number, modelled or unmodelled location and components, and unsupported components or methods and missing components or components of different events are refused.",
    ['inputs', 'configurations'],
    "all harmonic coefficients and sample values, all back azimuths and azimuths for the design matrix, several sets of back azimuths for the fit, all trace orders within the bound",
    "Two numbers of one example decomposition with nine traces are tested.",
    ['rf/harmonics.py'],
    [('harmonics, decomp_one, decomp_two', 'rf/harmonics.py')],
    observe=['traces returned by harmonics, design matrices'])

add('C24', 'Plots draw every trace to scale and do not change the data',
    "plot_rf draws each trace once against time relative to its own onset at its position in the stream, scaled by the largest amplitude of the stream (or of the trace on request) times the scale factor, with the stack as unscaled mean; plot_profile draws each trace at its box position against time relative to onset increasing downwards with common scaling; plot_harmonics scales each panel by the largest amplitude of the set of harmonics shown in it. The depth axis of profiles labels the delay time of conversions at this depth, the histogram shows the number of traces over each box, and map plots show stations, piercing points and boxes at their coordinates, new axes in the given coordinate reference system or centred on the points shown. "
    "The plotted stream is not modified, also when a window is requested.",
    ['inputs', 'configurations'],
    "all sample values, onsets, scale factors and numbers of traces within the bound",
    "Tests only check that the functions run.",
    ['rf/imaging.py'],
    [('plot_rf, plot_profile, plot_harmonics', 'rf/imaging.py')],
    observe=['coordinates passed to the drawing functions'])

add('C25', 'Command line runs equal the documented processing',
    "Batch commands apply exactly the requested steps, in the order given, once to every stream of the configured events and stations which can be read, and write every result once: data retrieves, calc calculates receiver functions, moveout corrects, stack and profile stack, convert only changes the format. "
    "Options given on the command line take precedence over the configuration file, comments in it are ignored, the phase and moveout phase options override the nested settings, unknown options and repeated commands are refused, and a configuration or input file that cannot be read produces no output.",
    ['configurations', 'inputs', 'fault_sequences'],
    "all combinations of commands and options within the bound, all option values",
    "One fixed sequence of commands is run per format and output files are counted.",
    ['rf/batch.py'],
    [('run_cli, run, run_commands', 'rf/batch.py'), ('ConfigJSONDecoder', 'rf/batch.py')],
    observe=['calls of rf, moveout, stack, profile and write'])

add('C26', 'Batch output files never collide and are found again',
    "For SAC output, traces that differ in network, station, location, channel or origin time (in seconds) go to different files, for Q output streams of different stations, types of channels (e.g. BH? and HH?) or events do, in HDF5 output traces that differ in these codes, origin time or start time go to different data sets, and stacks, profile traces and plots of different ids or positions do not replace each other, all below the requested root. "
    "The file name used for reading the data of an event and station matches exactly the files written for this event and station, also if they are read and written again by the next command.",
    ['inputs', 'configurations'],
    "all codes without separator characters, all origin times that differ by at least a second, all formats and result types",
    "Tests count the files of seven event-station pairs of one station.",
    ['rf/batch.py'],
    [('FNAMES, STACK_FNAMES, PROFILE_FNAMES', 'rf/batch.py'), ('write, iter_event_processed_data', 'rf/batch.py')],
    observe=['file names passed to the writers and readers'])

add('C27', 'Travel times and geodesics are physically accurate',
    "Onset, distance, back azimuth and piercing point coordinates agree with the travel times of the given Earth model and with geodesics on the WGS84 ellipsoid.",
    ['inputs'], "all events, stations and phases",
    "A few event-station pairs are compared with other programs.",
    ['rf/rfstream.py', 'rf/util.py'],
    [('rfstats', 'rf/rfstream.py'), ('direct_geodetic', 'rf/util.py')])

add('C28', 'Data and headers survive binary files',
    "Samples and headers written to SAC, Q or HDF5 files are read back bit for bit up to the precision of the format.",
    ['inputs'], "all samples and headers",
    "One trace with one set of headers is written per format.",
    ['rf/rfstream.py'],
    [('RFStream.write, read_rf', 'rf/rfstream.py')])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
