From 5562d179f60d5c7a458796c896c1b8eb4c0410b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 01/33] fix: cache reference delay times per reference slowness

---
 rf/simple_model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 4b8cc66..e0e9ffe 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -134,9 +134,10 @@ class SimpleModel(object):
             raise ValueError(msg % phase)
         phase = phase.upper()
         try:
-            t_ref = self.t_ref[phase]
+            t_ref = self.t_ref[phase, ref]
         except KeyError:
-            self.t_ref[phase] = t_ref = self.calculate_delay_times(ref, phase)
+            t_ref = self.calculate_delay_times(ref, phase)
+            self.t_ref[phase, ref] = t_ref
         t = self.calculate_delay_times(slowness, phase)
         if phase[0] == 'S':
             t_ref = -t_ref
-- 
2.43.0


From 1cdd9a314dc21abc78e2fdc0700011cf750e28a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 02/33] fix: skip events without data if get_waveforms returns
 None

---
 rf/util.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/util.py b/rf/util.py
index 77a4d41..9e491f3 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -85,6 +85,8 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
             stream = get_waveforms(**kws)
         except Exception:  # no data available
             continue
+        if stream is None:  # no data available
+            continue
         stream.trim(starttime, endtime)
         stream.merge()
         if len(stream) != 3:
-- 
2.43.0


From 1d9376cc203cd439d8026e90c9371e810c6e831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:54 +0000
Subject: [PATCH 03/33] fix: take headers of stacked traces from the traces
 which are stacked

---
 rf/rfstream.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 9e113d0..37479ef 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -410,11 +410,12 @@ class RFStream(Stream):
         id.
         """
         ids = set(tr.id for tr in self)
-        tr = self[0]
         traces = []
         for id in ids:
             net, sta, loc, cha = id.split('.')
-            data = np.mean([tr.data for tr in self if tr.id == id], axis=0)
+            traces_id = [tr for tr in self if tr.id == id]
+            tr = traces_id[0]
+            data = np.mean([tr.data for tr in traces_id], axis=0)
             header = {'network': net, 'station': sta, 'location': loc,
                       'channel': cha, 'sampling_rate': tr.stats.sampling_rate}
             for entry in ('phase', 'moveout', 'station_latitude',
-- 
2.43.0


From 7270271b83691d654f2937854b229d95181eb56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 04/33] fix: set components header of all unmodelled harmonics

---
 rf/harmonics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/harmonics.py b/rf/harmonics.py
index 0e121dc..03b79b6 100644
--- a/rf/harmonics.py
+++ b/rf/harmonics.py
@@ -129,7 +129,7 @@ def harmonics(stream, components='R', azim=0, method='time', **kwargs):
             out[i].stats['channel'] = str(i-5)
             out[i].stats['term'] = terms[i-5]
             out[i].stats['location'] = 'unmod'
-        out[i].stats['components'] = components
+            out[i].stats['components'] = components
     return out
 
 
-- 
2.43.0


From 77adce29ff48a2fa49535cfba4bbecd05d538177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 05/33] fix: scale second set of harmonics by its own maximum

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 532454f..64c627f 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -418,7 +418,7 @@ def plot_harmonics(hd, hd2=None, fillcolors=('b', 'r'), trim=None):
     if hd2:
         ref1 = max(abs(hd2.select(channel='0', location='mod')[0].data))
         for tr in hd2.select(location='mod'):
-            if max(abs(tr.data)) > ref0:
+            if max(abs(tr.data)) > ref1:
                 ref1 = max(abs(tr.data))
         unmod = hd2.select(location='mod')
     else:
-- 
2.43.0


From 5a302949cc2e0119a305bf736409eebc8920a91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 06/33] fix: allow float values for downsample option as
 documented

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 37479ef..813a727 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -321,7 +321,7 @@ class RFStream(Stream):
         if downsample:
             for tr in self:
                 if downsample <= tr.stats.sampling_rate:
-                    tr.decimate(int(tr.stats.sampling_rate) // downsample)
+                    tr.decimate(int(tr.stats.sampling_rate // downsample))
         if rotate:
             for stream3c in iter3c(self):
                 stream3c.rotate(rotate)
-- 
2.43.0


From f16ba07ce86bc3b40640620f28e65104d40f8920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 07/33] fix: allow onset behind the last sample in deconvolve

---
 rf/deconvolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index ebc0f7d..5f31235 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -13,8 +13,8 @@ from rf.util import _add_processing_info
 def __find_nearest(array, value):
     """http://stackoverflow.com/a/26026189"""
     idx = np.searchsorted(array, value, side='left')
-    expr = np.abs(value - array[idx - 1]) < np.abs(value - array[idx])
-    if idx > 0 and (idx == len(array) or expr):
+    if idx > 0 and (idx == len(array) or np.abs(value - array[idx - 1]) <
+                    np.abs(value - array[idx])):
         return idx - 1
     else:
         return idx
-- 
2.43.0


From 72a562554d5a66da2802eb6ba25c0ef134bed96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 08/33] fix: restore station codes and H5 index if writing
 fails

---
 rf/rfstream.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 813a727..79f9886 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -194,24 +194,28 @@ class RFStream(Stream):
         """
         if len(self) == 0:
             return
-        for tr in self:
-            tr._write_format_specific_header(format, sh_compat=sh_compat)
-            if format.upper() == 'Q':
-                tr.stats.station = tr.id
-        if format.upper() == 'H5':
-            index = self.type
-            if index is None and 'event_time' in self[0].stats:
-                index = 'rf'
-            if index:
-                import obspyh5
-                old_index = obspyh5._INDEX
-                obspyh5.set_index(_H5INDEX[index])
-        super(RFStream, self).write(filename, format, **kwargs)
-        if format.upper() == 'H5' and index:
-            obspyh5.set_index(old_index)
-        if format.upper() == 'Q':
+        stations = [tr.stats.station for tr in self]
+        old_index = None
+        try:
             for tr in self:
-                tr.stats.station = tr.stats.station.split('.')[1]
+                tr._write_format_specific_header(format, sh_compat=sh_compat)
+                if format.upper() == 'Q':
+                    tr.stats.station = tr.id
+            if format.upper() == 'H5':
+                index = self.type
+                if index is None and 'event_time' in self[0].stats:
+                    index = 'rf'
+                if index:
+                    import obspyh5
+                    old_index = obspyh5._INDEX
+                    obspyh5.set_index(_H5INDEX[index])
+            super(RFStream, self).write(filename, format, **kwargs)
+        finally:
+            # restore stream and index also if writing fails
+            if old_index is not None:
+                obspyh5.set_index(old_index)
+            for tr, station in zip(self, stations):
+                tr.stats.station = station
 
     def trim2(self, starttime=None, endtime=None, reftime=None, **kwargs):
         """
-- 
2.43.0


From 69de5df6b8dffda5e8eb942b63f761a6d75daf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 09/33] fix: write streams of other types, e.g. harmonics, to
 H5 with default index

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 79f9886..03ffc6d 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -205,7 +205,7 @@ class RFStream(Stream):
                 index = self.type
                 if index is None and 'event_time' in self[0].stats:
                     index = 'rf'
-                if index:
+                if index in _H5INDEX:
                     import obspyh5
                     old_index = obspyh5._INDEX
                     obspyh5.set_index(_H5INDEX[index])
-- 
2.43.0


From 5edd7996ac1a36aa5df605d8d3a441ab5ce58c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:17 +0000
Subject: [PATCH 10/33] fix: use the traces returned by the deconvolution in rf
 method

---
 rf/rfstream.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 03ffc6d..13a1240 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -340,11 +340,19 @@ class RFStream(Stream):
             if tr.stats.channel.endswith('Q'):
                 tr.data = -tr.data
         if deconvolve:
+            results = {}
             for stream3c in iter3c(self):
                 kwargs.setdefault('winsrc', method)
+                traces = stream3c.traces
                 stream3c.deconvolve(method=deconvolve,
                                     source_components=source_components,
                                     **kwargs)
+                # results take the places of the original traces
+                for i, tr in enumerate(traces):
+                    end = i + 1 if i + 1 < len(traces) else None
+                    results[id(tr)] = stream3c.traces[i:end]
+            self.traces = [tr2 for tr in self
+                           for tr2 in results.get(id(tr), [tr])]
         # Mirrow Q/R and T component at 0s for S-receiver method for a better
         # comparison with P-receiver method (converted Sp wave arrives before
         # S wave, but converted Ps wave arrives after P wave)
-- 
2.43.0


From c1bc63c902df0f612df152592a98260375a36eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 11/33] fix: allow waterlevel deconvolution without
 normalization for single array and return_info

---
 rf/deconvolve.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 5f31235..6d580c5 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -229,10 +229,10 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
         for rf in rf_list:
             rf *= norm
     if return_info:
-        if normalize not in (None, 'src'):
+        if normalize != 'src':
             spec_src = ffilt * spec_src * spec_src_conj / spec_src_water
             rf_src = ifft(spec_src, nfft)[:N]
-            norm = 1 / max(rf_src)
+            norm = 1 if normalize is None else 1 / max(rf_src)
             rf_src = norm * rf_src
         info = {'rf_src': rf_src, 'rf_src_conj': spec_src_conj,
                 'spec_src_water': spec_src_water,
@@ -240,7 +240,7 @@ def deconv_waterlevel(rsp_list, src, sampling_rate, waterlevel=0.05, gauss=0.5,
                 'gauss': ffilt, 'norm': norm, 'N': N, 'nfft': nfft}
         return rf_list, info
     elif flag:
-        return rf
+        return rf_list[0]
     else:
         return rf_list
 
-- 
2.43.0


From 49b72b47c48c84a508b3ac89d4a038c629042e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:42 +0000
Subject: [PATCH 12/33] fix: allow single array in iterative deconvolution as
 documented

---
 rf/deconvolve.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index 6d580c5..a41e217 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -466,6 +466,9 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
     :return: (list of) array(s) with deconvolution(s)
     """
 
+    flag = not isinstance(rsp, (list, tuple)) and np.ndim(rsp) == 1
+    if flag:
+        rsp = [rsp]
     ncomp = len(rsp)    # number of components we're looping over here
     dt = 1 / sampling_rate
     RF_out = []
@@ -518,6 +521,8 @@ def deconv_iterative(rsp, src, sampling_rate, tshift=10, gauss=0.5, itmax=400,
         for RF in RF_out:
             RF *= norm
 
+    if flag:
+        return RF_out[0], it_out[0], rms_out[0]
     return RF_out, it_out, rms_out
 
 
-- 
2.43.0


From bef2c90d5d5b9e9ff8bdd0d9fac70255e592020c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 13/33] fix: refuse calc or moveout given twice also after data
 command

---
 rf/batch.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index 05a8129..97f651d 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -255,12 +255,9 @@ def run_commands(command, commands=(), events=None, inventory=None,
         kw['boxes']['bins'] = np.linspace(*kw['boxbins'])
 
     try:
-        if command == 'calc':
-            assert len(commands) < 3
-            if len(commands) == 2:
-                assert commands[0] != commands[1]
-        elif command == 'calc':
-            assert len(commands) < 2
+        if command in ('data', 'calc'):
+            all_commands = [command] + list(commands)
+            assert len(set(all_commands)) == len(all_commands)
     except Exception:
         raise ParseError('calc or moveout command given more than once')
 
-- 
2.43.0


From 96762fb2ba35fdfb5c530c1696b782d367d0907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 14/33] fix: accept events which are already loaded in batch
 commands

---
 rf/batch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rf/batch.py b/rf/batch.py
index 97f651d..893e012 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -266,8 +266,7 @@ def run_commands(command, commands=(), events=None, inventory=None,
         if command in ('stack', 'plot'):
             events = None
         elif command != 'print' or objects[0] == 'events':
-            if (not isinstance(events, obspy.Catalog) or
-                    not isinstance(events, list) or
+            if (not isinstance(events, (obspy.Catalog, list)) or
                     (len(events) == 2 and isinstance(events[0], basestring))):
                 if isinstance(events, basestring):
                     format_ = None
-- 
2.43.0


From 6040026121b3831760d533c2c352ba7a6eb4afa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 15/33] fix: depth axis of profile plot was shifted by one
 layer

---
 rf/imaging.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rf/imaging.py b/rf/imaging.py
index 64c627f..830c21e 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -339,6 +339,7 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
         phase = profile[0].stats.moveout
         slowness = profile[0].stats.slowness
         pd = model.calculate_delay_times(phase=phase, slowness=slowness)
+        pd = np.hstack((0., pd[:-1]))  # delay times at the top of each layer
         ylim = ax.get_ylim()
         ax2 = ax.twinx()
         ax.sharey(ax2)
-- 
2.43.0


From 889a7087535d75a796fbe465069733ab8d670ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 16/33] fix: depth axis of S receiver function profile plot was
 reversed

---
 rf/imaging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rf/imaging.py b/rf/imaging.py
index 830c21e..9dd024c 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -339,6 +339,8 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
         phase = profile[0].stats.moveout
         slowness = profile[0].stats.slowness
         pd = model.calculate_delay_times(phase=phase, slowness=slowness)
+        if phase[0].upper() == 'S':  # S receiver functions are mirrored
+            pd = -pd
         pd = np.hstack((0., pd[:-1]))  # delay times at the top of each layer
         ylim = ax.get_ylim()
         ax2 = ax.twinx()
-- 
2.43.0


From 0337779ebbda6df0dd582514fb667453c8189f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 17/33] fix: no NaNs after moveout if wave with reference
 slowness turns first

---
 rf/simple_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index e0e9ffe..bb7870e 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -143,7 +143,7 @@ class SimpleModel(object):
             t_ref = -t_ref
             t = -t
         try:
-            index = np.nonzero(np.isnan(t))[0][0] - 1
+            index = np.nonzero(np.isnan(t + t_ref))[0][0] - 1
         except IndexError:
             index = len(t)
         t = t[:index]
-- 
2.43.0


From 9d298dc70225f6d52c54a691fcec4f603bc4f3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:24 +0000
Subject: [PATCH 18/33] fix: moveout of multiples of S was off by one sample
 and lost late samples

---
 rf/simple_model.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index bb7870e..971d5f3 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -2,7 +2,7 @@
 """
 Simple move out and piercing point calculation.
 """
-from math import floor
+from math import ceil, floor
 from pkg_resources import resource_filename
 
 import numpy as np
@@ -169,12 +169,16 @@ class SimpleModel(object):
                                               ref=ref)
             S_multiple = phase[0].upper() == 'S' and len(phase) > 3
             if S_multiple:
-                time0 = st.starttime - st.onset + index0 * st.delta
-                old_data = tr.data[:index0][::-1]
-                t = -time0 - np.arange(index0) * st.delta
-                new_t = -np.interp(-t, -t0, -t1, left=0, right=0)
-                data = np.interp(-t, -new_t, old_data, left=0., right=0.)
-                tr.data[:index0] = data[::-1]
+                # times are negative, mirror of the other case
+                num = int(ceil((st.onset - st.starttime) *
+                               st.sampling_rate)) + 1
+                if t0[-1] < t1[-1]:
+                    num -= 1
+                old_data = tr.data[:num]
+                t = st.starttime - st.onset + np.arange(num) * st.delta
+                new_t = -np.interp(-t, -t0, -t1, left=0, right=None)
+                data = np.interp(t, new_t, old_data, left=0., right=None)
+                tr.data[:num] = data
             else:
                 if t0[-1] > t1[-1]:
                     index0 += 1
-- 
2.43.0


From e5cc91c8cb61da1d185b696cb84996edce41e057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:17 +0000
Subject: [PATCH 19/33] fix: allow moveout if onset is at the first or last
 sample

---
 rf/simple_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rf/simple_model.py b/rf/simple_model.py
index 971d5f3..96080eb 100644
--- a/rf/simple_model.py
+++ b/rf/simple_model.py
@@ -174,6 +174,8 @@ class SimpleModel(object):
                                st.sampling_rate)) + 1
                 if t0[-1] < t1[-1]:
                     num -= 1
+                if num == 0:  # no data before onset
+                    continue
                 old_data = tr.data[:num]
                 t = st.starttime - st.onset + np.arange(num) * st.delta
                 new_t = -np.interp(-t, -t0, -t1, left=0, right=None)
@@ -182,6 +184,8 @@ class SimpleModel(object):
             else:
                 if t0[-1] > t1[-1]:
                     index0 += 1
+                if index0 == len(tr):  # no data behind onset
+                    continue
                 time0 = st.starttime - st.onset + index0 * st.delta
                 old_data = tr.data[index0:]
                 t = time0 + np.arange(len(tr) - index0) * st.delta
-- 
2.43.0


From 6dbb0af83f3828075efb9eac9f3a296d158f9f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 20/33] fix: refuse methods PS and empty string in rf method

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 13a1240..d9114d1 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -313,7 +313,7 @@ class RFStream(Stream):
 
         if method is None:
             method = self.method
-        if method is None or method not in 'PS':
+        if method not in ('P', 'S'):
             msg = "method must be one of 'P', 'S', but is '%s'"
             raise ValueError(msg % method)
         if source_components is None:
-- 
2.43.0


From ab201250933d49e3fed6b0ab1a6de13a5060bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 21/33] fix: time domain deconvolution was shifted by one
 sample if source window of even length does not reach beyond the onset

---
 rf/deconvolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/deconvolve.py b/rf/deconvolve.py
index a41e217..9e661a8 100644
--- a/rf/deconvolve.py
+++ b/rf/deconvolve.py
@@ -282,7 +282,7 @@ def _xcorrt(a, b, num, zero_sample=0):
         a = _add_zeros(a, 0, 2 * abs(zero_sample))
     dif = len(a) - len(b) + 1 - num
     if dif > 0:
-        b = _add_zeros(b, (dif + 1) // 2, dif // 2)
+        b = _add_zeros(b, dif // 2, (dif + 1) // 2)
     else:
         a = _add_zeros(a, (-dif + 1) // 2, (-dif) // 2)
     return correlate(a, b, 'valid')
-- 
2.43.0


From 9b3c33be62b13ac0a112ca49b46d808b27160832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 22/33] fix: reading Q files with comments of other origin,
 e.g. a number, failed

---
 rf/rfstream.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index d9114d1..be7642f 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -566,9 +566,11 @@ class RFTrace(Trace):
                     pass
                 elif format == 'sh' and head_format == 'COMMENT':
                     try:
-                        st.update(json.loads(value))
+                        comment = json.loads(value)
                     except json.JSONDecodeError:
-                        pass
+                        continue
+                    if isinstance(comment, dict):
+                        st.update(comment)
                     continue
                 else:
                     st[head] = value
-- 
2.43.0


From 0bd1ec54d02b3ad32ebc8894e2405bbe594c5fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 23/33] fix: phases other than P and S, e.g. PS, used the
 default distance range of S

---
 rf/rfstream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index be7642f..9dbd9f0 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -710,7 +710,7 @@ def rfstats(obj=None, event=None, station=None,
                 traces.append(tr)
         stream.traces = traces
         return stream
-    if dist_range == 'default' and phase.upper() in 'PS':
+    if dist_range == 'default' and phase.upper() in ('P', 'S'):
         dist_range = (30, 90) if phase.upper() == 'P' else (50, 85)
     elif dist_range == 'default':
         raise ValueError('Please specify dist_range parameter')
-- 
2.43.0


From beb622e02c8ff2b229fa6cc3e29bb8a983d6f10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:45 +0000
Subject: [PATCH 24/33] fix: event was ignored by rfstats if station attributes
 are given by stats, and vice versa

---
 rf/rfstream.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index 9dbd9f0..b010d55 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -715,8 +715,7 @@ def rfstats(obj=None, event=None, station=None,
     elif dist_range == 'default':
         raise ValueError('Please specify dist_range parameter')
     stats = AttribDict({}) if obj is None else obj
-    if event is not None and station is not None:
-        stats.update(obj2stats(event=event, station=station))
+    stats.update(obj2stats(event=event, station=station))
     dist, baz, _ = gps2dist_azimuth(stats.station_latitude,
                                     stats.station_longitude,
                                     stats.event_latitude,
-- 
2.43.0


From 92fef46ec5cf51498ae1526d743b6778e3b9d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 25/33] fix: data which cannot be merged aborted the iteration
 over all events

---
 rf/util.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rf/util.py b/rf/util.py
index 9e491f3..4552a04 100644
--- a/rf/util.py
+++ b/rf/util.py
@@ -87,8 +87,14 @@ def iter_event_data(events, inventory, get_waveforms, phase='P',
             continue
         if stream is None:  # no data available
             continue
-        stream.trim(starttime, endtime)
-        stream.merge()
+        try:
+            stream.trim(starttime, endtime)
+            stream.merge()
+        except Exception as ex:  # e.g. different sampling rates
+            from warnings import warn
+            warn('Error "%s" while merging data for event %s, station %s.'
+                 % (ex, event.resource_id, seedid))
+            continue
         if len(stream) != 3:
             from warnings import warn
             warn('Need 3 component seismograms. %d components '
-- 
2.43.0


From b5cba7042bf61208482ad7e35ceffad4a3c06a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 26/33] fix: histogram of plot_profile was shifted by half a
 box

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 9dd024c..0961862 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -365,7 +365,7 @@ def plot_profile(profile, fname=None, figsize=None, dpi=None,
     if top == 'hist':
         left = [tr.stats.box_pos - tr.stats.box_length / 2 for tr in profile]
         height = [tr.stats.num for tr in profile]
-        ax3.bar(left, height, widths, color='cadetblue')
+        ax3.bar(left, height, widths, align='edge', color='cadetblue')
         plt.setp(ax3.get_xticklabels(), visible=False)
         ax3.spines['top'].set_color('none')
         ax3.spines['right'].set_color('none')
-- 
2.43.0


From 64e987280cb0c6a789b8958cb6ad453f2d57ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:25 +0000
Subject: [PATCH 27/33] fix: harmonics of two components mixed up events if a
 component of an event is missing

---
 rf/harmonics.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rf/harmonics.py b/rf/harmonics.py
index 03b79b6..7187848 100644
--- a/rf/harmonics.py
+++ b/rf/harmonics.py
@@ -71,6 +71,13 @@ def harmonics(stream, components='R', azim=0, method='time', **kwargs):
     if T:
         rfT = np.array([tr.data for tr in stream.select(channel='*T').sort(['event_time'])])
 
+        # components of each event have to be paired
+        timesR, timesT = [
+            sorted(tr.stats.event_time for tr in stream.select(channel='*%s' % c))
+            for c in components]
+        if timesR != timesT:
+            raise ValueError('Components %s belong to different events' % components)
+
     # transform if working in frequency domain
     if method == 'freq':
         rfR = np.array([np.fft.fft(rfR[i]) for i in range(len(rfR))])
-- 
2.43.0


From d61e99c2931b66980d60af6eb7e160626212ee82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 28/33] fix: batch commands read files several times if a
 station has several channel types

---
 rf/batch.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rf/batch.py b/rf/batch.py
index 893e012..b1aaacb 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -97,6 +97,7 @@ def write(stream, root, format, type=None):
 def iter_event_processed_data(events, inventory, pin, format,
                               yield_traces=False, pbar=None):
     """Iterator yielding streams or traces which are read from disc."""
+    done = set()
     for meta in iter_event_metadata(events, inventory, pbar=pbar):
         meta['channel'] = '???'
         if 'event_time' not in meta and format != 'H5':
@@ -106,6 +107,11 @@ def iter_event_processed_data(events, inventory, pin, format,
         if format == 'H5':
             meta.pop('channel')
             kwargs['readonly'] = meta
+        # different channels of a station are read at once, e.g. BH? and HH?
+        key = (fname, str(kwargs))
+        if key in done:
+            continue
+        done.add(key)
         try:
             stream = read_rf(fname, format, **kwargs)
         except Exception:
-- 
2.43.0


From eba70b57a1980677e1496a48f1ec9dfc66b8c785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 29/33] fix: strings with # in the configuration file were
 treated as comments

---
 rf/batch.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rf/batch.py b/rf/batch.py
index b1aaacb..3d2de89 100644
--- a/rf/batch.py
+++ b/rf/batch.py
@@ -10,6 +10,7 @@ import json
 import os
 from os.path import join
 from pkg_resources import resource_filename
+import re
 import shutil
 import sys
 
@@ -182,11 +183,17 @@ def init_data(data, client_options=None, plugin=None):
     return wrapper
 
 
+def _strip_comment(line):
+    """Strip comment from line, keep # inside of strings, e.g. for colors."""
+    # sequence of other characters and strings
+    return re.match(r'([^"#]|"(\\.|[^"\\])*("|$))*', line).group()
+
+
 class ConfigJSONDecoder(json.JSONDecoder):
     """Strip lines from comments."""
 
     def decode(self, s):
-        s = '\n'.join(l.split('#', 1)[0] for l in s.split('\n'))
+        s = '\n'.join(_strip_comment(l) for l in s.split('\n'))
         return super(ConfigJSONDecoder, self).decode(s)
 
 
-- 
2.43.0


From 41bf40f6c48ddede49a5f85c96a70789904f91e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:41 +0000
Subject: [PATCH 30/33] fix: times read from SAC files were altered by single
 precision (origin time one second early in file names)

---
 rf/rfstream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rf/rfstream.py b/rf/rfstream.py
index b010d55..a213244 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -49,7 +49,9 @@ def __get_event_id(event):
 
 def __SAC2UTC(stats, head):
     from obspy.io.sac.util import get_sac_reftime
-    return get_sac_reftime(stats.sac) + stats[head]
+    # SAC values have single precision, use the shortest decimal number to not
+    # alter e.g. origin times given in milliseconds
+    return get_sac_reftime(stats.sac) + float(str(np.float32(stats[head])))
 
 
 def __UTC2SAC(stats, head):
-- 
2.43.0


From b318244b26c757d3bfd475a2a9e7dbceb8d01990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:42 +0000
Subject: [PATCH 31/33] fix: plot_rf with show_vlines=True and
 show_traces=False raised an error

---
 rf/imaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rf/imaging.py b/rf/imaging.py
index 0961862..c66945c 100644
--- a/rf/imaging.py
+++ b/rf/imaging.py
@@ -136,6 +136,7 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
                 for l in ax.get_xticklabels():
                     l.set_fontsize('small')
             ax.xaxis.set_minor_locator(AutoMinorLocator())
+    aligner_color = "#a0a0a080"
     if show_traces:
         # set x and y limits
         ax1.set_xlim(*xlim)
@@ -143,7 +144,6 @@ def plot_rf(stream, fname=None, fig_width=7., trace_height=0.5,
         ax1.set_yticklabels('')
         ax1.set_xlabel('time (s)')
         ax1.xaxis.set_minor_locator(AutoMinorLocator())
-        aligner_color = "#a0a0a080"
         if show_vlines:
             ax1.xaxis.grid(True, color=aligner_color, linestyle=':')
 
-- 
2.43.0


From 7fc95ddafd6ee70184ad85b37b2caa80b71273b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:09 +0000
Subject: [PATCH 32/33] fix: stack() and profile() added processing information
 to the traces of the original stream

---
 rf/profile.py  | 3 ++-
 rf/rfstream.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/rf/profile.py b/rf/profile.py
index 07893a3..39e82ae 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -3,6 +3,7 @@
 """
 Functions for receiver function profile calculation.
 """
+from copy import deepcopy
 import numpy as np
 from rf.util import _add_processing_info, direct_geodetic
 
@@ -105,7 +106,7 @@ def profile(stream, boxes, crs=None):
                       'channel': '??' + comp}
             for entry in ('slowness', 'phase', 'moveout', 'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = deepcopy(tr.stats[entry])
             stack[key] = tr2 = tr.__class__(data=tr.data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
diff --git a/rf/rfstream.py b/rf/rfstream.py
index a213244..820620b 100644
--- a/rf/rfstream.py
+++ b/rf/rfstream.py
@@ -3,6 +3,7 @@
 """
 Classes and functions for receiver function calculation.
 """
+from copy import deepcopy
 import json
 from operator import itemgetter
 from pkg_resources import resource_filename
@@ -436,7 +437,7 @@ class RFStream(Stream):
                           'station_longitude', 'station_elevation',
                           'processing'):
                 if entry in tr.stats:
-                    header[entry] = tr.stats[entry]
+                    header[entry] = deepcopy(tr.stats[entry])
             tr2 = RFTrace(data=data, header=header)
             if 'onset' in tr.stats:
                 onset = tr.stats.onset - tr.stats.starttime
-- 
2.43.0


From fefca9f600cd276d4a83c1c11fbf9795df5f59b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:19 +0000
Subject: [PATCH 33/33] fix: keep profile boxes crossing the antimeridian
 together

---
 rf/profile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rf/profile.py b/rf/profile.py
index 39e82ae..b32b070 100644
--- a/rf/profile.py
+++ b/rf/profile.py
@@ -22,7 +22,9 @@ def _get_box(latlon0, azimuth, length, width=_LARGE_BOX_WIDTH, offset=0):
     corners = []
     for a, d in zip(azis, dists):
         latlon = direct_geodetic(latlon, a, d)
-        corners.append(latlon[::-1])
+        # keep polygon together if it crosses the antimeridian
+        shift = 360 * round((start[1] - latlon[1]) / 360)
+        corners.append((latlon[1] + shift, latlon[0]))
     box = {'poly': Polygon(corners),
            'length': length,
            'pos': offset + length/2,
-- 
2.43.0

