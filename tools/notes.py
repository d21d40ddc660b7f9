COMMON = (' Bounded: every path of the code within the sizes given in the '
          'evidence file is executed symbolically and the statements are '
          'decided by z3 over all values of the inputs; counterexamples are '
          'replayed with the unpatched code. Trusts: exact real arithmetic '
          'in place of floating point, the symbolic models of the numpy and '
          'scipy functions used, obspy; paths the solver cannot decide are '
          'counted as inconclusive in the evidence and do not raise alarms.')
NOTE = {
 'C01': 'Traces of up to 12 samples (30 in thorough) with symbolic data, '
        'concrete slownesses and 17 phases; symbolic onsets; any monotonic '
        'tables of delay times with two depths (C03 decides the tables).',
 'C02': 'Histories of one or two calls (three in thorough) with symbolic '
        'slownesses, references and depths on two models are compared with '
        'a module instance without history.',
 'C03': 'Delay times and stretching tables of 2-3 layer models with symbolic '
        'thicknesses, velocities and slowness for 25 phases; turning waves '
        'in a concrete 12 layer model.',
 'C04': 'Distances in models of 2-3 symbolic layers and a concrete model '
        'with 12 layers; piercing points on a flat earth stub. The shifted '
        'depths of ppoint_distance are a known finding.',
 'C05': 'Streams of one set of three components with symbolic data; filter, '
        'trim, rotation, deconvolution are recorded or run for real on a few '
        'samples; symbolic onsets and ray parameters.',
 'C06': 'Streams of two or three sets of components of 2-3 events and '
        'locations, all orders of traces up to the bounds in the evidence, '
        'symbolic data and back azimuths.',
 'C07': 'Streams of up to four components with 6-12 samples, symbolic data, '
        'windows from a list; the deconvolution function is recorded; '
        'iterative, waterlevel and time domain methods also run for real.',
 'C08': 'Matrix and right hand side passed to the solver are compared for '
        'symbolic sources and responses of up to 9 samples; with concrete '
        'sources the solution is inserted into the equations (scipy solver '
        'modelled by exact elimination).',
 'C15': 'Streams of up to 3 traces of a few samples with symbolic start '
        'times, onsets and window limits at two sampling rates.',
 'C20': 'Streams of up to 4 traces with all patterns of ids.',
 'C09': 'Frequency domain methods: spectra, waterlevel and Gauss filter are '
        'decided for symbolic data of up to 8 samples with an exact FFT; '
        'see evidence for lengths and filters.',
 'C10': 'Iterative deconvolution of up to two responses of a few samples; '
        'the greedy pursuit is decided along lines in the space of data '
        '(one parameter), for 2-3 iterations.',
 'C11': 'Multitaper deconvolution: spectra and division are decided for '
        'symbolic responses; tapers and eigen decomposition are those of the '
        'library.',
 'C12': 'Scaling, additivity and shifts are relations between two runs on '
        'symbolic data of a few samples; for the iterative method along '
        'lines in the space of data.',
 'C13': 'Headers written and read back through the format specific header '
        'dictionaries; the binary writers and readers of obspy are stubs.',
 'C14': 'Streams of up to 3 traces; the writer of obspy is a stub which '
        'fails before or after any trace.',
 'C16': 'Geodesic and travel time routines are stubs with any results; '
        'single stats and streams of up to 3 traces (5 in thorough).',
 'C17': 'Events with one or two origins and magnitudes, any values.',
 'C18': 'Streams of up to 4 traces (6 in thorough), ids from a list, any '
        'values of the key header.',
 'C19': 'Up to 2 events and 2 stations (3 events in thorough) with all '
        'patterns of faults; data sources, inventory and travel times are '
        'stubs.',
 'C21': 'Profiles of 1-4 boxes with symbolic edges, azimuth and width; local '
        'geodesics and shapely containment are exact models on a plane; '
        'replays use the real libraries, so that points within 2 km of an '
        'edge are left out.',
 'C22': 'Streams of up to 4 traces in up to 3 boxes, all assignments and '
        'orders; symbolic data.',
 'C23': 'Sets of 5-7 back azimuths from lists, symbolic data; numpy lstsq is '
        'modelled by exact elimination.',
 'C24': 'Figures of up to 3 traces recorded by a drawing canvas in place of '
        'matplotlib; counterexamples are replayed with matplotlib itself.',
 'C25': 'Runs of rf.batch on up to 3 streams with an in-memory store in '
        'place of files and affine maps in place of rf() and moveout(); '
        'configuration files from lists.',
 'C26': 'Codes of networks, stations and locations with symbolic '
        'characters and lengths from a list, symbolic origin times between '
        '1900 and 2099, events which are distinguishable at the resolution '
        'of one second; the file system is a dictionary; channels with more '
        'than one band are a known finding for the Q format.',
}
