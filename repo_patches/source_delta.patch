From 6c84f9aca7b615d44bc7928b658da04b04372763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 001/144] fix: register symmetric_taper and time_2_array as
 UVPSpec parameters

A typo stored the symmetric_taper parameter outside the parameter list, so it
was dropped when writing a UVPSpec to disk; another overwrote the time_1_array
parameter, so time_2_array was not checked, cleared or compared.
---
 src/hera_pspec/uvpspec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index aa5ea7a..cca0e7b 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -261,7 +261,7 @@ class UVPSpec:
             form="(Nbltpairs,)",
             expected_type=np.float64,
         )
-        self._time_1_array = PSpecParam(
+        self._time_2_array = PSpecParam(
             "time_2_array",
             description="Time array of the second bl in the bl-pair [Julian Date].",
             form="(Nbltpairs,)",
@@ -320,10 +320,10 @@ class UVPSpec:
             description="Form of data weighting used when forming power spectra.",
             expected_type=str,
         )
-        self.set_symmetric_taper = PSpecParam(
+        self._symmetric_taper = PSpecParam(
             "symmetric_taper",
             description="Specify whether Taper was applied symmetrically (True) or to the left(False).",
-            expected_type=str,
+            expected_type=bool,
         )
         self._norm = PSpecParam(
             "norm",
@@ -446,7 +446,6 @@ class UVPSpec:
             "label_2_array",
             "spw_dly_array",
             "spw_freq_array",
-            "symmetric_taper",
         ]
 
         # All parameters must fall into one and only one of the following
@@ -475,6 +474,7 @@ class UVPSpec:
             "beamfile",
             "folded",
             "exact_windows",
+            "symmetric_taper",
         ]
         self._ndarrays = [
             "spw_array",
-- 
2.43.0


From 1e0186afc3cc38c91727ae82249666aa4fee1da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:02 +0000
Subject: [PATCH 002/144] fix: keep labels, Nfreqs and folded delays consistent
 in UVPSpec.select

select() did not slice label_1_array/label_2_array, left Nfreqs stale after a
spectral-window selection, and dropped the negative delays of folded spectra
from dly_array while keeping them in the data arrays, so that the getters of
the selected object returned the wrong delays.
---
 src/hera_pspec/uvpspec_utils.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 465dd15..9c5f1f4 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -588,8 +588,12 @@ def _select(
     if spws is not None:
         # Get info for each spw that will be retained
         spw_freq_select = uvp.spw_to_freq_indices(spws)
-        spw_dly_select = uvp.spw_to_dly_indices(spws)
         spw_select = uvp.spw_indices(spws)
+        # keep every delay of the chosen windows (spw_to_dly_indices would drop
+        # the negative half of a folded spectrum, which the data arrays keep)
+        spw_dly_select = np.where(
+            np.isin(uvp.spw_dly_array, uvp.spw_array[spw_select])
+        )[0]
         uvp.spw_freq_array = uvp.spw_freq_array[spw_freq_select]
         uvp.spw_dly_array = uvp.spw_dly_array[spw_dly_select]
 
@@ -604,8 +608,12 @@ def _select(
         uvp.Nspws = len(np.unique(uvp.spw_array))
         uvp.Nspwdlys = len(uvp.spw_dly_array)
         uvp.Nspwfreqs = len(uvp.spw_freq_array)
+        uvp.Nfreqs = len(np.unique(uvp.freq_array))
         if hasattr(uvp, "scalar_array"):
             uvp.scalar_array = uvp.scalar_array[spw_select, :]
+        for label in ("label_1_array", "label_2_array"):
+            if hasattr(uvp, label):
+                setattr(uvp, label, getattr(uvp, label)[spw_select])
 
         # Down-convert spw indices such that spw_array == np.arange(Nspws)
         for i in range(uvp.Nspws):
@@ -613,7 +621,7 @@ def _select(
                 continue
             spw = np.min(uvp.spw_array[uvp.spw_array > i])
             spw_freq_select = uvp.spw_to_freq_indices(spw)
-            spw_dly_select = uvp.spw_to_dly_indices(spw)
+            spw_dly_select = np.where(uvp.spw_dly_array == spw)[0]
             spw_select = uvp.spw_indices(spw)
             uvp.spw_freq_array[spw_freq_select] = i
             uvp.spw_dly_array[spw_dly_select] = i
@@ -686,6 +694,9 @@ def _select(
         uvp.lst_1_array = uvp.lst_1_array[blp_select]
         uvp.lst_2_array = uvp.lst_2_array[blp_select]
         uvp.lst_avg_array = uvp.lst_avg_array[blp_select]
+        for label in ("label_1_array", "label_2_array"):
+            if hasattr(uvp, label):
+                setattr(uvp, label, getattr(uvp, label)[:, blp_select])
         uvp.Ntpairs = len(np.unique(uvp.time_avg_array))
         uvp.Nblpairs = len(np.unique(uvp.blpair_array))
         uvp.Nbltpairs = len(uvp.blpair_array)
@@ -742,6 +753,9 @@ def _select(
         uvp.Npols = len(uvp.polpair_array)
         if hasattr(uvp, "scalar_array"):
             uvp.scalar_array = uvp.scalar_array[:, polpair_select]
+        for label in ("label_1_array", "label_2_array"):
+            if hasattr(uvp, label):
+                setattr(uvp, label, getattr(uvp, label)[:, :, polpair_select])
     else:
         polpair_select = slice(None)
 
-- 
2.43.0


From 48ccce97df82253ca84d8710cf2e470aab9a161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 003/144] fix: apply the polarization selection to beam
 integrals and r_params in metadata-only reads

---
 src/hera_pspec/uvpspec_utils.py | 46 ++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 9c5f1f4..025c56f 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -935,30 +935,30 @@ def _select(
             uvp.cov_array_real = cov_real
             uvp.cov_array_imag = cov_imag
 
-        # downselect on other attrs
-        if hasattr(uvp, "OmegaP"):
-            uvp.OmegaP = uvp.OmegaP[:, polpair_select]
-            uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
-
-        # select r_params based on new bl_array
-        blp_keys = uvp.get_all_keys()
-        blkeys = []
-        for blpkey in blp_keys:
-            key1 = blpkey[1][0] + (blpkey[2][0],)
-            key2 = blpkey[1][1] + (blpkey[2][1],)
-            if key1 not in blkeys:
-                blkeys += [key1]
-            if key2 not in blkeys:
-                blkeys += [key2]
+    # downselect on other attrs
+    if hasattr(uvp, "OmegaP"):
+        uvp.OmegaP = uvp.OmegaP[:, polpair_select]
+        uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
+
+    # select r_params based on new bl_array
+    blp_keys = uvp.get_all_keys()
+    blkeys = []
+    for blpkey in blp_keys:
+        key1 = blpkey[1][0] + (blpkey[2][0],)
+        key2 = blpkey[1][1] + (blpkey[2][1],)
+        if key1 not in blkeys:
+            blkeys += [key1]
+        if key2 not in blkeys:
+            blkeys += [key2]
+    new_r_params = {}
+    if hasattr(uvp, "r_params") and uvp.r_params != "":
+        r_params = uvp.get_r_params()
+        for rpkey in r_params:
+            if rpkey in blkeys:
+                new_r_params[rpkey] = r_params[rpkey]
+    else:
         new_r_params = {}
-        if hasattr(uvp, "r_params") and uvp.r_params != "":
-            r_params = uvp.get_r_params()
-            for rpkey in r_params:
-                if rpkey in blkeys:
-                    new_r_params[rpkey] = r_params[rpkey]
-        else:
-            new_r_params = {}
-        uvp.r_params = compress_r_params(new_r_params)
+    uvp.r_params = compress_r_params(new_r_params)
 
 
 def _blpair_to_antnums(blpair):
-- 
2.43.0


From 5ac726496d8f801e7065418a1643194180b3a908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 004/144] fix: match times to 1e-8 days in
 UVPSpec.time_to_indices

A relative tolerance of 1e-10 on a Julian date is about 21 seconds, so that
neighbouring integrations were returned along with the requested one. Use the
same tolerance as select().
---
 src/hera_pspec/uvpspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index cca0e7b..32db642 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1521,7 +1521,7 @@ class UVPSpec:
             Contains indices at which selection is satisfied along the
             blpairts axis.
         """
-        time_select = np.isclose(self.time_avg_array, time, rtol=1e-10)
+        time_select = np.isclose(self.time_avg_array, time, rtol=1e-16)
         if blpairs is None:
             return np.arange(self.Nbltpairs)[time_select]
         else:
-- 
2.43.0


From 7e7395e7888588a80fcca077241e1f558b15fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 005/144] fix: let set_stats_slice work on folded spectra

get_dlys() only returns the positive delays of a folded spectrum, while the
stats arrays keep all of them, so the delay mask had the wrong length.
---
 src/hera_pspec/uvpspec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 32db642..38c8e33 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1166,7 +1166,8 @@ class UVPSpec:
         # iterate over spws
         for i in range(self.Nspws):
             # get this spw dlys
-            dlys = self.get_dlys(i) * 1e9
+            # (all of them: folded spectra keep their negative delays in the arrays)
+            dlys = self.dly_array[self.spw_dly_array == i] * 1e9
             # iterate over blpairs
             for blp in blpairs:
                 # get time-blpair inds
-- 
2.43.0


From 77c5d308333676027ffe5541456c93e63185301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:26 +0000
Subject: [PATCH 006/144] fix: do not slice the k_perp axis of folded exact
 window functions as delays

---
 src/hera_pspec/uvpspec.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 38c8e33..626648d 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -667,6 +667,11 @@ class UVPSpec:
         # if data has been folded, return only positive delays
         if self.folded:
             Ndlys = np.count_nonzero(self.spw_dly_array == spw)
+            if self.exact_windows:
+                # the remaining axes are (kperp, kpara), not delays
+                return self.window_function_array[spw][
+                    blpairts, -(Ndlys - Ndlys // 2 - 1) :, ..., polpair
+                ]
             return self.window_function_array[spw][
                 blpairts,
                 -(Ndlys - Ndlys // 2 - 1) :,
-- 
2.43.0


From d4b3ea55bce0c659c2274b818d6b100a9b1e48c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:55 +0000
Subject: [PATCH 007/144] fix: pass x_orientation on when polpair_tuple2int is
 given a list

---
 src/hera_pspec/uvpspec_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 025c56f..f8c0fd1 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -458,7 +458,7 @@ def polpair_tuple2int(polpair, x_orientation=None):
     """
     # Recursive evaluation
     if isinstance(polpair, (list, np.ndarray)):
-        return [polpair_tuple2int(p) for p in polpair]
+        return [polpair_tuple2int(p, x_orientation=x_orientation) for p in polpair]
 
     # Check types
     assert type(polpair) is tuple, "pol must be a tuple"
-- 
2.43.0


From e312694a3215d59404c85264350ce69188f3ec39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 008/144] fix: look up blpair-times by both of their times when
 combining UVPSpecs

Rows that share a baseline-pair and first time but differ in their second time
(e.g. from interleaved datasets) were confused with each other when combining
along spectral windows or polarization pairs.
---
 src/hera_pspec/uvpspec_utils.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index f8c0fd1..17b29ec 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -1198,12 +1198,13 @@ def _fast_lookup_blpairts(src_blpts, query_blpts, time_prec=8):
     Parameters
     ----------
     src_blpts : list of tuples or array_like
-        List of tuples or array of shape (N, 2), containing a list of (blpair,
-        time) couplets.
+        List of tuples or array of shape (N, 2) or (N, 3), containing a list of
+        (blpair, time) couplets or (blpair, time1, time2) triplets.
 
     query_blpts : list of tuples or array_like
-        List of tuples or array of shape (M, 2), containing a list of (blpair,
-        time) couplets that you want to find the indices of in source_blpts.
+        List of tuples or array of shape (M, 2) or (M, 3), containing a list of
+        (blpair, time) couplets or (blpair, time1, time2) triplets that you want
+        to find the indices of in source_blpts.
 
     time_prec : int, optional
         Number of decimals to round time array to when performing float
@@ -1215,19 +1216,13 @@ def _fast_lookup_blpairts(src_blpts, query_blpts, time_prec=8):
         Array of integers of size (M,), which are indices in the source_blpts
         array for each item in query_blpts.
     """
-    # This function works by using a small hack -- the blpair-times are turned
-    # into complex numbers of the form (blpair + 1.j*time), allowing numpy
-    # array lookup functions to be used
-    src_blpts = np.asarray(src_blpts)
-    query_blpts = np.asarray(query_blpts)
-
-    src_blpts = src_blpts[:, 0] + 1.0j * np.around(src_blpts[:, 1], time_prec)
-    query_blpts = query_blpts[:, 0] + 1.0j * np.around(query_blpts[:, 1], time_prec)
-    # Applies rounding to time values to ensure reliable float comparisons
-
-    # Do np.where comparison for all new_blpts
-    # (indices stored in second array returned by np.where)
-    blpts_idxs = np.where(src_blpts == query_blpts[:, np.newaxis])[1]
+    # Times are rounded to ensure reliable float comparisons. All times in the
+    # tuple take part: several rows can share their first time.
+    def _key(blpt):
+        return (int(blpt[0]),) + tuple(np.around(blpt[1:], time_prec).tolist())
+
+    lookup = {_key(blpt): i for i, blpt in enumerate(src_blpts)}
+    blpts_idxs = np.array([lookup[_key(blpt)] for blpt in query_blpts], dtype=int)
 
     return blpts_idxs
 
-- 
2.43.0


From 59c78ca5ac83251f145175934a249b8e69224147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 009/144] fix: keep frequencies and delays with their spectral
 window in combine_uvpspec

The data of the combined object are arranged in the order of the sorted spectral
windows, but when concatenating along blpair-times or polarization pairs the
frequency and delay arrays were copied from the first object in its own order.
---
 src/hera_pspec/uvpspec.py | 46 ++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 30 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 626648d..52624f6 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3108,13 +3108,22 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                     (Nbltpairs, spw[3], Npols), np.complex128
                 )
 
-    # Set frequencies and delays: if concat_ax == 'spw' this is changed below
-    # assumes spw metadata are the same for all uvps
-    u.spw_array = uvps[0].spw_array.copy()
-    u.spw_freq_array = uvps[0].spw_freq_array.copy()
-    u.spw_dly_array = uvps[0].spw_dly_array.copy()
-    u.freq_array = uvps[0].freq_array.copy()
-    u.dly_array = uvps[0].dly_array.copy()
+    # Set frequencies and delays in the order of the new (sorted) spectral windows
+    u.spw_array = np.arange(Nspws, dtype=np.int32)
+    for i, spw in enumerate(new_spws):
+        # get index of this new spw in uvps and its spw index
+        l = [spw in _u for _u in uvp_spws].index(True)
+        m = uvp_spws[l].index(spw)
+        spw_freq_inds = np.where(uvps[l].spw_freq_array == m)[0]
+        u.freq_array.extend(uvps[l].freq_array[spw_freq_inds])
+        u.spw_freq_array.extend(np.full(len(spw_freq_inds), i, dtype=np.int32))
+        spw_dly_inds = np.where(uvps[l].spw_dly_array == m)[0]
+        u.dly_array.extend(uvps[l].dly_array[spw_dly_inds])
+        u.spw_dly_array.extend(np.full(len(spw_dly_inds), i, dtype=np.int32))
+    u.freq_array = np.array(u.freq_array)
+    u.dly_array = np.array(u.dly_array)
+    u.spw_freq_array = np.array(u.spw_freq_array)
+    u.spw_dly_array = np.array(u.spw_dly_array)
     u.Nfreqs = len(np.unique(u.freq_array))
     u.Nspwfreqs = len(u.spw_freq_array)
     u.Ndlys = len(np.unique(u.dly_array))
@@ -3176,26 +3185,12 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
     # fill in data arrays depending on concat ax
     if concat_ax == "spw":
-        u.spw_array = np.arange(Nspws, dtype=np.int32)
-        freq_array, dly_array = [], []
-        spw_freq_array, spw_dly_array = [], []
-
         # Concatenate spectral windows
         for i, spw in enumerate(new_spws):
             # get index of this new spw in uvps and its spw index
             l = [spw in _u for _u in uvp_spws].index(True)
             m = [spw == _spw for _spw in uvp_spws[l]].index(True)
 
-            # freq metadata
-            spw_freq_inds = np.where(uvps[l].spw_freq_array == m)[0]
-            freq_array.extend(uvps[l].freq_array[spw_freq_inds])
-            spw_freq_array.extend(np.ones(len(spw_freq_inds), dtype=np.int32) * i)
-
-            # dly metadata
-            spw_dly_inds = np.where(uvps[l].spw_dly_array == m)[0]
-            dly_array.extend(uvps[l].dly_array[spw_dly_inds])
-            spw_dly_array.extend(np.ones(len(spw_dly_inds), dtype=np.int32) * i)
-
             # Lookup indices of new_blpts in the uvp_blpts[l] array
             blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
             if i == 0:
@@ -3238,15 +3233,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                                 m
                             ][n, :, q]
 
-        u.freq_array = np.array(freq_array)
-        u.dly_array = np.array(dly_array)
-        u.spw_freq_array = np.array(spw_freq_array)
-        u.spw_dly_array = np.array(spw_dly_array)
-        u.Nfreqs = len(np.unique(u.freq_array))
-        u.Nspwfreqs = len(u.spw_freq_array)
-        u.Ndlys = len(np.unique(u.dly_array))
-        u.Nspwdlys = len(u.spw_dly_array)
-
         # Populate new LST, time, and blpair arrays
         for j, blpt in enumerate(new_blpts):
             n = blpts_idxs0[j]
-- 
2.43.0


From 96d6bcf863d69f426c80e996c16e5ecc177f0e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:23 +0000
Subject: [PATCH 010/144] fix: let combine_uvpspec combine folded spectra

The output arrays were allocated with the number of positive delays, while the
arrays of folded objects keep all delays.
---
 src/hera_pspec/uvpspec.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 52624f6..e2261aa 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3074,38 +3074,41 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
     # Loop over new spectral windows and setup arrays
     for i, spw in enumerate(new_spws):
+        # Number of stored delays (spw[3] only counts the positive ones if folded)
+        l = [spw in _u for _u in uvp_spws].index(True)
+        m = uvp_spws[l].index(spw)
+        spw_ndlys = uvps[l].data_array[m].shape[1]
+
         # Initialize new arrays
-        u.data_array[i] = np.empty((Nbltpairs, spw[3], Npols), np.complex128)
+        u.data_array[i] = np.empty((Nbltpairs, spw_ndlys, Npols), np.complex128)
         u.integration_array[i] = np.empty((Nbltpairs, Npols), np.float64)
         u.wgt_array[i] = np.empty((Nbltpairs, spw[2], 2, Npols), np.float64)
         # spw[2] == Nfreqs (wgt_array is not resampled if Ndlys != Nfreqs,
         # so needs to keep this shape)
         u.nsample_array[i] = np.empty((Nbltpairs, Npols), np.float64)
         if store_window:
-            l = [spw in _u for _u in uvp_spws].index(True)
-            m = [spw == _spw for _spw in uvp_spws[l]].index(True)
             if exact_windows:
                 Nkperp = uvps[l].window_function_kperp[m][:, 0].size
                 Nkpara = uvps[l].window_function_kpara[m][:, 0].size
                 u.window_function_array[i] = np.empty(
-                    (Nbltpairs, spw[3], Nkperp, Nkpara, Npols), np.float64
+                    (Nbltpairs, spw_ndlys, Nkperp, Nkpara, Npols), np.float64
                 )
             else:
                 Nkpar = uvps[l].window_function_array[m].shape[2]
                 u.window_function_array[i] = np.empty(
-                    (Nbltpairs, spw[3], Nkpar, Npols), np.float64
+                    (Nbltpairs, spw_ndlys, Nkpar, Npols), np.float64
                 )
         if store_cov:
             u.cov_array_real[i] = np.empty(
-                (Nbltpairs, spw[3], spw[3], Npols), np.float64
+                (Nbltpairs, spw_ndlys, spw_ndlys, Npols), np.float64
             )
             u.cov_array_imag[i] = np.empty(
-                (Nbltpairs, spw[3], spw[3], Npols), np.float64
+                (Nbltpairs, spw_ndlys, spw_ndlys, Npols), np.float64
             )
         if store_stats:
             for stat in stored_stats:
                 u.stats_array[stat][i] = np.empty(
-                    (Nbltpairs, spw[3], Npols), np.complex128
+                    (Nbltpairs, spw_ndlys, Npols), np.complex128
                 )
 
     # Set frequencies and delays in the order of the new (sorted) spectral windows
-- 
2.43.0


From 13352012d3083a0abd6aaa0042f881daadd14c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 011/144] fix: carry the k bins of exact window functions
 through combine_uvpspec

They were left empty in the combined object.
---
 src/hera_pspec/uvpspec.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index e2261aa..f920679 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3093,6 +3093,19 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                 u.window_function_array[i] = np.empty(
                     (Nbltpairs, spw_ndlys, Nkperp, Nkpara, Npols), np.float64
                 )
+                # bins of the window functions, for each polarization pair
+                kperps, kparas = [], []
+                for p in new_polpairs:
+                    lp = [
+                        spw in _spws and p in _pols
+                        for _spws, _pols in zip(uvp_spws, uvp_polpairs)
+                    ].index(True)
+                    mp = uvp_spws[lp].index(spw)
+                    q = uvp_polpairs[lp].index(p)
+                    kperps.append(uvps[lp].window_function_kperp[mp][:, q])
+                    kparas.append(uvps[lp].window_function_kpara[mp][:, q])
+                u.window_function_kperp[i] = np.stack(kperps, axis=-1)
+                u.window_function_kpara[i] = np.stack(kparas, axis=-1)
             else:
                 Nkpar = uvps[l].window_function_array[m].shape[2]
                 u.window_function_array[i] = np.empty(
-- 
2.43.0


From c00f196e55544868f75b53c65a8398efcc734a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 012/144] fix: let combine_uvpspec combine covariances without
 a cov_model

add_approximate_covariance() sets covariance arrays but no cov_model.
---
 src/hera_pspec/uvpspec.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index f920679..3342d54 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3049,13 +3049,15 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
             u.window_function_kpara = {}
             u.exact_windows = exact_windows
     if store_cov:
-        # ensure cov model is the same for all uvps
-        if len(set([uvp.cov_model for uvp in uvps])) > 1:
+        # ensure cov model is the same for all uvps (covariances that did not come
+        # from PSpecData, e.g. add_approximate_covariance, have none)
+        if len(set([getattr(uvp, "cov_model", None) for uvp in uvps])) > 1:
             store_cov = False
         else:
             u.cov_array_real = {}
             u.cov_array_imag = {}
-            u.cov_model = uvps[0].cov_model
+            if hasattr(uvps[0], "cov_model"):
+                u.cov_model = uvps[0].cov_model
     if store_stats:
         # get shared stats keys
         stored_stats = [set(uvp.stats_array.keys()) for uvp in uvps]
-- 
2.43.0


From fa108e319286014d6061952cfdd132ce073190c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 013/144] fix: keep symmetric_taper in combine_uvpspec

---
 src/hera_pspec/uvpspec.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 3342d54..1ecbb07 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3400,6 +3400,13 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
     u.r_params = uvputils.compress_r_params(r_params)
 
+    # older files do not carry symmetric_taper
+    symmetric_taper = [
+        uvp.symmetric_taper for uvp in uvps if hasattr(uvp, "symmetric_taper")
+    ]
+    if len(set(symmetric_taper)) == 1:
+        u.symmetric_taper = symmetric_taper[0]
+
     for k in static_meta.keys():
         setattr(u, k, static_meta[k])
 
-- 
2.43.0


From c54ae6bd0f8fef400c890ca4578dfd8494b51db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 014/144] fix: combine beam integrals per polarization pair in
 combine_uvpspec

OmegaP and OmegaPP have a polarization axis. They were compared and copied as a
whole, so objects split along polarization pairs could not be combined again,
or were combined into one with the beam integrals of the first object only.
---
 src/hera_pspec/uvpspec.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 1ecbb07..46fa02b 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3410,6 +3410,15 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
     for k in static_meta.keys():
         setattr(u, k, static_meta[k])
 
+    # beam integrals of each polarization pair
+    for k in ["OmegaP", "OmegaPP"]:
+        if hasattr(uvps[0], k):
+            columns = {}
+            for uvp, pols in zip(uvps, uvp_polpairs):
+                for i, p in enumerate(pols):
+                    columns.setdefault(p, getattr(uvp, k)[:, i])
+            setattr(u, k, np.stack([columns[p] for p in new_polpairs], axis=-1))
+
     # Run check to make sure the new UVPSpec object is valid
     u.check()
 
@@ -3524,9 +3533,7 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
         "channel_width",
         "telescope_location",
         "weighting",
-        "OmegaP",
         "beam_freqs",
-        "OmegaPP",
         "beamfile",
         "norm",
         "taper",
@@ -3547,6 +3554,24 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
                     f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
                 )
 
+    # beam integrals are given per polarization pair: they must agree for the
+    # pairs that the objects have in common
+    for m in ["OmegaP", "OmegaPP"]:
+        has_m = [hasattr(u, m) for u in uvps]
+        assert all(has_m) or not any(has_m), (
+            f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
+        )
+        if not all(has_m):
+            continue
+        columns = {}
+        for u in uvps:
+            for i, p in enumerate(u.polpair_array):
+                column = getattr(u, m)[:, i]
+                other = columns.setdefault(p, column)
+                assert column.shape == other.shape and np.isclose(column, other).all(), (
+                    f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
+                )
+
     # get static metadata values
     static_meta = dict(
         [
-- 
2.43.0


From 09be5efd8ee0c2614219163924f3cff496ed9fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 015/144] fix: take the times of a combined UVPSpec from the
 object they index

Combining along spw or polpairs looked the blpair-times up in the object that
holds the first window or polarization, but then read them from the zeroth one.
---
 src/hera_pspec/uvpspec.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 46fa02b..5bf0e11 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3211,8 +3211,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
             # Lookup indices of new_blpts in the uvp_blpts[l] array
             blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
-            if i == 0:
-                blpts_idxs0 = blpts_idxs.copy()
 
             # Loop over polarizations
             for k, p in enumerate(new_polpairs):
@@ -3252,6 +3250,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                             ][n, :, q]
 
         # Populate new LST, time, and blpair arrays
+        blpts_idxs0 = uvputils._fast_lookup_blpairts(uvp_blpts[0], new_blpts)
         for j, blpt in enumerate(new_blpts):
             n = blpts_idxs0[j]
             u.time_1_array[j] = uvps[0].time_1_array[n]
@@ -3326,8 +3325,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
             # Get mapping of blpair-time indices between old UVPSpec objects
             # and the new one
             blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
-            if k == 0:
-                blpts_idxs0 = blpts_idxs.copy()
 
             # Loop over spectral windows
             for i, spw in enumerate(new_spws):
@@ -3363,6 +3360,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                     u.label_1_array[i, j, k] = u_lbls[uvps[l].labels[lbl1]]
                     u.label_2_array[i, j, k] = u_lbls[uvps[l].labels[lbl2]]
 
+        blpts_idxs0 = uvputils._fast_lookup_blpairts(uvp_blpts[0], new_blpts)
         for j, blpt in enumerate(new_blpts):
             n = blpts_idxs0[j]
             u.time_1_array[j] = uvps[0].time_1_array[n]
-- 
2.43.0


From df413415d80720f284b3336055d2c3d4e1c45140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:47 +0000
Subject: [PATCH 016/144] fix: compare scalar arrays by window and polarization
 when combining UVPSpecs

Objects that store their windows or polarizations in different orders were
compared position by position, and refused.
---
 src/hera_pspec/uvpspec.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 5bf0e11..fedec55 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3664,13 +3664,18 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
 
     # perform additional checks given concat ax
     if concat_ax == "blpairts":
-        # check scalar_array
-        assert np.all(
-            [np.isclose(uvps[0].scalar_array, u.scalar_array) for u in uvps[1:]]
-        ), (
-            "scalar_array must be the same for all uvps given "
-            "concatenation along blpairts."
-        )
+        # check scalar_array, window by window and polarization by polarization
+        # as the objects can store them in different orders
+        spw0, pol0 = uvps[0].get_spw_ranges(), uvps[0].polpair_array.tolist()
+        for u in uvps[1:]:
+            spw_inds = [u.get_spw_ranges().index(s) for s in spw0]
+            pol_inds = [u.polpair_array.tolist().index(p) for p in pol0]
+            assert np.isclose(
+                uvps[0].scalar_array, u.scalar_array[np.ix_(spw_inds, pol_inds)]
+            ).all(), (
+                "scalar_array must be the same for all uvps given "
+                "concatenation along blpairts."
+            )
 
     return uvps, concat_ax, unique_spws, unique_blpts, unique_polpairs, static_meta
 
-- 
2.43.0


From 2d67c8506744d7b5d46b1a0cf5aefddcf9b6c98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 017/144] fix: honour fractional baseline-pair weights in
 average_spectra

The normalised weights were truncated to integers, so that e.g. relative
weights (1, 3) discarded the first baseline-pair.
---
 src/hera_pspec/grouping.py | 54 ++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index c26d9ba..12c6a18 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -514,34 +514,36 @@ def average_spectra(
                         # Above we use the clip method for zero weights. A tolerance
                         # as low as 1e-40 works when using inverse square of noise power
                         # as weights.
-                    # Add multiple copies of data for each baseline according
-                    # to the weighting/multiplicity;
-                    # while multiple copies are only added when bootstrap resampling
-                    for m in range(int(blpg_wgts[k])):
-                        bpg_data.append(data * w)
-                        bpg_wgts.append(wgts * w[:, :1, None])
-                        bpg_ints.append(ints * w)
-                        bpg_nsmp.append(nsmp)
-                        for stat in stat_l:
-                            # clip errws for same reason above
-                            bpg_stats[stat].append(errws[stat].clip(0, 1e40) * w**2)
-                        if store_window:
-                            if uvp.exact_windows:
-                                bpg_window_function.append(
-                                    window_function * w[:, :, None, None]
-                                )
-                            else:
-                                bpg_window_function.append(
-                                    window_function * w[:, :, None]
-                                )
-                        if store_cov:
-                            bpg_cov_real.append(
-                                cov_real * w[:, :, None] * w[:, None, :]
+                    # Weight each baseline by its relative weight (an integer weight
+                    # is the same as adding as many copies of the data, e.g. when
+                    # bootstrap resampling)
+                    m = blpg_wgts[k]
+                    if m == 0:
+                        continue
+                    bpg_data.append(m * data * w)
+                    bpg_wgts.append(m * wgts * w[:, :1, None])
+                    bpg_ints.append(m * ints * w)
+                    bpg_nsmp.append(m * nsmp)
+                    for stat in stat_l:
+                        # clip errws for same reason above
+                        bpg_stats[stat].append(m * errws[stat].clip(0, 1e40) * w**2)
+                    if store_window:
+                        if uvp.exact_windows:
+                            bpg_window_function.append(
+                                m * window_function * w[:, :, None, None]
                             )
-                            bpg_cov_imag.append(
-                                cov_imag * w[:, :, None] * w[:, None, :]
+                        else:
+                            bpg_window_function.append(
+                                m * window_function * w[:, :, None]
                             )
-                        w_list.append(w)
+                    if store_cov:
+                        bpg_cov_real.append(
+                            m * cov_real * w[:, :, None] * w[:, None, :]
+                        )
+                        bpg_cov_imag.append(
+                            m * cov_imag * w[:, :, None] * w[:, None, :]
+                        )
+                    w_list.append(m * w)
 
                 # normalize sum: clip to deal with w_list_sum == 0
                 w_list_sum = np.sum(w_list, axis=0).clip(1e-40, np.inf)
-- 
2.43.0


From e329f34c2db4505594c279f4dc35a70200853683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 018/144] fix: keep label arrays in step with the averaged rows
 in average_spectra

The label arrays kept describing the rows before averaging, so that averaged
spectra were labelled with the datasets of other baseline-pairs.
---
 src/hera_pspec/grouping.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 12c6a18..b0a95e8 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -623,10 +623,12 @@ def average_spectra(
     time_1, time_2, time_avg_arr = [], [], []
     lst_1, lst_2, lst_avg_arr = [], [], []
     blpair_arr, bl_arr = [], []
+    label_inds = []
 
     for i, blpg in enumerate(blpair_groups):
         # Get blpairts indices for zeroth blpair in this group
         blpairts = uvp.blpair_to_indices(blpg[0])
+        label_inds.extend(blpairts[:1] if time_avg else blpairts)
 
         # Assign meta-data
         bl_arr.extend(list(uvputils._blpair_to_bls(blpg[0])))
@@ -669,6 +671,10 @@ def average_spectra(
     uvp.bl_vecs = bl_vecs
     uvp.blpair_array = np.array(blpair_arr)
 
+    # Dataset labels of the zeroth blpair in each group
+    uvp.label_1_array = uvp.label_1_array[:, label_inds]
+    uvp.label_2_array = uvp.label_2_array[:, label_inds]
+
     # Times
     uvp.time_1_array = np.array(time_1)
     uvp.time_2_array = np.array(time_2)
-- 
2.43.0


From 564681017cc198212e80e8c000e8f6f6f85bdfbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 019/144] fix: normalise exact window functions in
 average_spectra

They were the sum of the weighted window functions rather than their mean.
---
 src/hera_pspec/grouping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index b0a95e8..202cb70 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -570,7 +570,10 @@ def average_spectra(
                     bpg_stats[stat] = np.sqrt(stat_avg)
                 if store_window:
                     if uvp.exact_windows:
-                        bpg_window_function = np.sum(bpg_window_function, axis=0)
+                        bpg_window_function = (
+                            np.sum(bpg_window_function, axis=0)
+                            / w_list_sum[:, :, None, None]
+                        )
                     else:
                         bpg_window_function = (
                             np.sum(bpg_window_function, axis=0) / w_list_sum[:, :, None]
-- 
2.43.0


From f34bbc21652f5838326a794e9e912e61b39107bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 020/144] fix: do not turn small error bars into infinite ones
 in average_spectra

Squared errors below 1e-8, in whatever units the spectra are in, were taken
for missing ones.
---
 src/hera_pspec/grouping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 202cb70..f1ff77e 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -508,8 +508,8 @@ def average_spectra(
                             errws[stat] = (np.sum(weighted_errws, axis=0) / wsum**2)[
                                 None
                             ]
-                            # set near-zero errws to inf, as they should be
-                            errws[stat][np.isclose(errws[stat], 0)] = np.inf
+                            # set zero errws to inf, as they should be
+                            errws[stat][errws[stat] == 0] = np.inf
                         w = np.sum(w, axis=0)[None]
                         # Above we use the clip method for zero weights. A tolerance
                         # as low as 1e-40 works when using inverse square of noise power
@@ -564,8 +564,8 @@ def average_spectra(
                     )
                 for stat in stat_l:
                     stat_avg = np.sum(bpg_stats[stat], axis=0) / w_list_sum**2
-                    # set near-zero stats to inf, as they should be
-                    stat_avg[np.isclose(stat_avg, 0)] = np.inf
+                    # set zero stats to inf, as they should be
+                    stat_avg[stat_avg == 0] = np.inf
                     # take sqrt to get back to stat units
                     bpg_stats[stat] = np.sqrt(stat_avg)
                 if store_window:
-- 
2.43.0


From f321373e13d54d19ec4d6e477f03bfa51a0a70a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:25 +0000
Subject: [PATCH 021/144] fix: keep all stored delays when averaging folded
 spectra

average_spectra used the getters, which return the positive delays only, so
that its arrays no longer matched the delays of the object and lost delays
again when read through the getters.
---
 src/hera_pspec/grouping.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index f1ff77e..79e080e 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -346,6 +346,11 @@ def average_spectra(
         blpair_groups += [[blp] for blp in extra_blpairs]
         blpair_weights += [[1.0] for blp in extra_blpairs]
 
+    # Folded spectra are averaged over all stored delays, not only over the
+    # positive ones returned by the getters
+    uvp_full = copy.copy(uvp)
+    uvp_full.folded = False
+
     # Create new data arrays
     data_array, wgts_array = {}, {}
     ints_array, nsmp_array = {}, {}
@@ -413,26 +418,26 @@ def average_spectra(
                 # Iterate within a baseline-pair group and get weighted data
                 for k, blp in enumerate(blpg):
                     # Get no. samples and construct integration weight
-                    nsmp = uvp.get_nsamples((spw, blp, p))[:, None]
+                    nsmp = uvp_full.get_nsamples((spw, blp, p))[:, None]
                     # shape of nsmp: (Ntimes, 1)
-                    data = uvp.get_data((spw, blp, p))
+                    data = uvp_full.get_data((spw, blp, p))
                     # shape of data: (Ntimes, Ndlys)
-                    wgts = uvp.get_wgts((spw, blp, p))
+                    wgts = uvp_full.get_wgts((spw, blp, p))
                     # shape of wgts: (Ntimes, Nfreqs, 2)
-                    ints = uvp.get_integrations((spw, blp, p))[:, None]
+                    ints = uvp_full.get_integrations((spw, blp, p))[:, None]
                     # shape of ints: (Ntimes, 1)
                     if store_window:
-                        window_function = uvp.get_window_function((spw, blp, p))
+                        window_function = uvp_full.get_window_function((spw, blp, p))
                         # shape of window_function if approx.: (Ntimes, Ndlys, Ndlys)
                         # shape of window_function if exact: (Ntimes, Ndlys, Nkperp, Nkpara)
                     if store_cov:
-                        cov_real = uvp.get_cov((spw, blp, p), component="real")
-                        cov_imag = uvp.get_cov((spw, blp, p), component="imag")
+                        cov_real = uvp_full.get_cov((spw, blp, p), component="real")
+                        cov_imag = uvp_full.get_cov((spw, blp, p), component="imag")
                         # shape of cov: (Ntimes, Ndlys, Ndlys)
                     # Get squared statistic
                     errws = {}
                     for stat in stat_l:
-                        errws[stat] = uvp.get_stats(stat, (spw, blp, p)).copy()
+                        errws[stat] = uvp_full.get_stats(stat, (spw, blp, p)).copy()
                         np.square(
                             errws[stat], out=errws[stat], where=np.isfinite(errws[stat])
                         )
@@ -448,7 +453,7 @@ def average_spectra(
                         # For reference: M. Tegmark 1997, The Astrophysical Journal Letters, 480, L87, Table 1, #3
                         # or J. Dillon 2014, Physical Review D, 89, 023002 , Equation 34.
                         stat_val = (
-                            uvp.get_stats(error_weights, (spw, blp, p)).copy().real
+                            uvp_full.get_stats(error_weights, (spw, blp, p)).copy().real
                         )  # shape (Ntimes, Ndlys)
                         np.square(stat_val, out=stat_val, where=np.isfinite(stat_val))
                         # corrects for potential nan values
-- 
2.43.0


From 30f63f93b77d1f57b41d24244dcd9c278308684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:30 +0000
Subject: [PATCH 022/144] fix: apply no normalization in average_spectra if
 normalize_weights is False

The weights were still multiplied by the size of the group, and nsamples with
them.
---
 src/hera_pspec/grouping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 79e080e..3d7bbbe 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -409,9 +409,10 @@ def average_spectra(
                         raise ValueError(
                             "Sum of baseline-pair weights in group %d is <= 0." % j
                         )
-                    blpg_wgts = (
-                        blpg_wgts * float(blpg_wgts.size) / norm
-                    )  # Apply normalization
+                    if normalize_weights:
+                        blpg_wgts = (
+                            blpg_wgts * float(blpg_wgts.size) / norm
+                        )  # Apply normalization
                 else:
                     blpg_wgts = np.ones(len(blpg))
 
-- 
2.43.0


From 38ac7ede497a4a03d548ebe4c039482047f1f394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 023/144] fix: do not fill the negative delays of folded data
 with nan

Folding a UVPSpec with a stats_array put nan where the docstring promises zero
power, so that the folded object no longer compared equal to itself.
---
 src/hera_pspec/grouping.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 3d7bbbe..eedc40c 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1546,7 +1546,6 @@ def fold_spectra(uvp):
                     uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
                         np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
                     ) ** (-0.5)
-                    uvp.data_array[spw][:, : Ndlys // 2, :] = np.nan
 
         else:
             # odd number of dlys
@@ -1631,7 +1630,6 @@ def fold_spectra(uvp):
                     uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
                         np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
                     ) ** (-0.5)
-                    uvp.data_array[spw][:, : Ndlys // 2, :] = np.nan
 
     uvp.folded = True
 
-- 
2.43.0


From a222b5382c0cbeb33cd9a17b0a3d2b8f93c7c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 024/144] fix: fold the real and imaginary parts of an error
 bar separately

Statistics such as bs_std hold the error of the real part in their real part
and that of the imaginary part in their imaginary part; folding squared them as
complex numbers.
---
 src/hera_pspec/grouping.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index eedc40c..b3a6b11 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1435,6 +1435,21 @@ def spherical_wf_from_uvp(
     return window_function_array
 
 
+def _sum_in_inverse_quadrature(left, right):
+    """
+    Combine two error bars as (left^-2 + right^-2)^(-1/2). The real and imaginary
+    parts are the errors of the real and imaginary parts of the power spectra, and
+    are combined separately.
+    """
+    if np.iscomplexobj(left) or np.iscomplexobj(right):
+        out = np.empty(np.shape(left), dtype=np.complex128)
+        out.real = _sum_in_inverse_quadrature(np.real(left), np.real(right))
+        out.imag = _sum_in_inverse_quadrature(np.imag(left), np.imag(right))
+        return out
+    with np.errstate(divide="ignore"):
+        return (1.0 / left**2.0 + 1.0 / right**2.0) ** (-0.5)
+
+
 def fold_spectra(uvp):
     """
     Average bandpowers from matching positive and negative delay bins onto a
@@ -1544,8 +1559,8 @@ def fold_spectra(uvp):
                     left = uvp.stats_array[stat][spw][:, 1 : Ndlys // 2, :][:, ::-1, :]
                     right = uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :]
                     uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
-                        np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
-                    ) ** (-0.5)
+                        _sum_in_inverse_quadrature(left, right)
+                    )
 
         else:
             # odd number of dlys
@@ -1628,8 +1643,8 @@ def fold_spectra(uvp):
                     left = uvp.stats_array[stat][spw][:, : Ndlys // 2, :][:, ::-1, :]
                     right = uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :]
                     uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
-                        np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
-                    ) ** (-0.5)
+                        _sum_in_inverse_quadrature(left, right)
+                    )
 
     uvp.folded = True
 
-- 
2.43.0


From f9989af1e686e8f28c4746b13521ef28dd66e621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 025/144] fix: spherically average objects without window
 functions

---
 src/hera_pspec/grouping.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index b3a6b11..b101acc 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -941,8 +941,9 @@ def spherical_average(
 
         # setup the design matrix: P_cyl = A P_sph
         A[spw] = np.zeros((uvp.Ntimes, Ndlyblps, Nk, uvp.Npols), dtype=np.float64)
-        # design matrix for window functions
-        Aw = np.zeros((uvp.Ntimes, Nfreqs, Nk_theory, uvp.Npols), dtype=np.float64)
+        if store_window:
+            # design matrix for window functions
+            Aw = np.zeros((uvp.Ntimes, Nfreqs, Nk_theory, uvp.Npols), dtype=np.float64)
         # setup weighting matrix: block diagonal for each Ndly x Ndly
         # we can represent the Ndlyblps x Ndlyblps block diagonal matrix as Ndlyblps x Ndlys
         E = np.zeros((uvp.Ntimes, Ndlyblps, Ndlys, uvp.Npols), dtype=np.float64)
@@ -1050,6 +1051,8 @@ def spherical_average(
 
             # get k_sph -> k_cyl mapping for window function
             # get k magnitude of data: (Ndlys,)
+            if not store_window:
+                continue
             kmags_per_freq = np.sqrt(kperps[blpt_inds][0] ** 2 + kparas_per_freq**2)
             for i, kmag in enumerate(kmags_per_freq):
                 kind = (kbin_left_theory < kmag) & (kbin_right_theory >= kmag)
-- 
2.43.0


From bab4a672771a1e62b45fef464ca3568e49eae93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 026/144] fix: keep the times of the averaged rows in
 spherical_average

---
 src/hera_pspec/grouping.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index b101acc..fd42885 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1182,12 +1182,12 @@ def spherical_average(
     uvp.bl_vecs[:] = 0.0
 
     # handle other metadata
-    uvp.time_avg_array = np.unique(uvp_in.time_avg_array)
-    uvp.time_1_array = np.unique(uvp_in.time_1_array)
-    uvp.time_2_array = np.unique(uvp_in.time_2_array)
-    uvp.lst_avg_array = np.unique(uvp_in.lst_avg_array)
-    uvp.lst_1_array = np.unique(uvp_in.lst_1_array)
-    uvp.lst_2_array = np.unique(uvp_in.lst_2_array)
+    uvp.time_avg_array = uvp.time_avg_array[blp_inds]
+    uvp.time_1_array = uvp.time_1_array[blp_inds]
+    uvp.time_2_array = uvp.time_2_array[blp_inds]
+    uvp.lst_avg_array = uvp.lst_avg_array[blp_inds]
+    uvp.lst_1_array = uvp.lst_1_array[blp_inds]
+    uvp.lst_2_array = uvp.lst_2_array[blp_inds]
 
     uvp.history = "Spherically averaged with hera_pspec [{}]\n{}\n{}\n{}".format(
         __version__, add_to_history, "-" * 40, uvp.history
-- 
2.43.0


From 122130bd0cb5ce99b1677c39db5fee9aedff67f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 027/144] fix: normalise the integrations of spherical_average
 by the weights of all baseline-pairs

---
 src/hera_pspec/grouping.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index fd42885..a38ea88 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -966,6 +966,9 @@ def spherical_average(
         # store kbins as delay bins
         spw_dlys_array.extend(np.ones_like(taus, dtype=int) * spw)
 
+        # sum of the weights E over baseline-pairs
+        Esum = np.zeros((uvp.Ntimes, uvp.Npols), dtype=np.float64)
+
         # iterate over blpairs
         for b, blp in enumerate(uvp.get_blpairs()):
             # get blpair time indices
@@ -1037,6 +1040,7 @@ def spherical_average(
             )  # use sum of E across delay as weight
             wgt_array[spw] += wgts * Emean[:, None, None, :]
             integration_array[spw] += ints * Emean
+            Esum += Emean
             nsample_array[spw] += nsmp
 
             # get k_sph -> k_cyl mapping
@@ -1067,7 +1071,7 @@ def spherical_average(
         wgt_array[spw] /= np.max(wgt_array[spw], axis=(2, 3), keepdims=True).clip(
             1e-40, np.inf
         )
-        integration_array[spw] /= np.trace(E.real, axis1=1, axis2=2).clip(1e-40, np.inf)
+        integration_array[spw] /= Esum.clip(1e-40, np.inf)
 
         # project onto spherically binned space
         # note: matmul (@) is generally as fast or many times faster than einsum here
-- 
2.43.0


From 0fdc6c8d6f7e3cd52cff89225b5be39953f01a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 028/144] fix: spherical_wf_from_uvp of several polarization
 pairs

---
 src/hera_pspec/grouping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index a38ea88..3d0fee9 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1399,8 +1399,8 @@ def spherical_wf_from_uvp(
         )
 
         # iterate over polarisation
-        spw_window_function = []
         for ip, polpair in enumerate(uvp.polpair_array):
+            spw_window_function = []
             # grids used to compute the window functions
             kperp_bins = uvp.window_function_kperp[spw][:, ip]
             kpara_bins = uvp.window_function_kpara[spw][:, ip]
-- 
2.43.0


From 0b6c9ad5792d3bd96abca14a01d9002e007b7dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 029/144] fix: zero the exact spherical windows that fall in no
 theory bin

---
 src/hera_pspec/grouping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 3d0fee9..0348aef 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1433,6 +1433,7 @@ def spherical_wf_from_uvp(
                             wf_spherical[m1, :] = np.divide(
                                 wf_spherical[m1, :],
                                 np.sum(wf_spherical[m1, :]),
+                                out=np.zeros(Nk_in),
                                 where=np.sum(wf_spherical[m1, :]) != 0,
                             )
                 spw_window_function.append(wf_spherical)
-- 
2.43.0


From ebbe5188c2db60852156303280cf2c92c413aee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 030/144] fix: bin the window functions of each baseline-pair
 by its own k_perp

---
 src/hera_pspec/grouping.py | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 0348aef..cd90076 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -910,7 +910,6 @@ def spherical_average(
 
         # setup arrays with delays in them
         Ndlys = spw_range[3]
-        Nfreqs = spw_range[2]
         # check if object has been delay-averaged
         Ndlyblps = Ndlys * uvp.Nblpairs
         data_array[spw] = np.zeros(
@@ -941,9 +940,9 @@ def spherical_average(
 
         # setup the design matrix: P_cyl = A P_sph
         A[spw] = np.zeros((uvp.Ntimes, Ndlyblps, Nk, uvp.Npols), dtype=np.float64)
-        if store_window:
-            # design matrix for window functions
-            Aw = np.zeros((uvp.Ntimes, Nfreqs, Nk_theory, uvp.Npols), dtype=np.float64)
+        if store_window and not uvp.exact_windows:
+            # design matrix for window functions, for each baseline-pair
+            Aw = np.zeros((uvp.Nblpairs, Nkpar, Nk_theory), dtype=np.float64)
         # setup weighting matrix: block diagonal for each Ndly x Ndly
         # we can represent the Ndlyblps x Ndlyblps block diagonal matrix as Ndlyblps x Ndlys
         E = np.zeros((uvp.Ntimes, Ndlyblps, Ndlys, uvp.Npols), dtype=np.float64)
@@ -953,9 +952,15 @@ def spherical_average(
 
         # get kparas for this spw: shape (Ndlys,)
         kparas = uvp.get_kparas(spw, little_h=True)
-        # get kparas for this spw: shape (Nfreqs,) - used for window function averaging
-        all_dlys = utils.get_delays(uvp.freq_array[uvp.spw_to_freq_indices(spw)])
-        kparas_per_freq = uvp.get_kparas(spw, little_h=True, dlys=all_dlys)
+        if store_window and not uvp.exact_windows:
+            # get kparas of the window functions: shape (Nkpar,)
+            if Nkpar == Ndlys:
+                all_dlys = uvp.get_dlys(spw)
+            else:
+                all_dlys = utils.get_delays(
+                    uvp.freq_array[uvp.spw_to_freq_indices(spw)]
+                )
+            kparas_per_freq = uvp.get_kparas(spw, little_h=True, dlys=all_dlys)
 
         # get k to tau mapping for this spw
         avgz = uvp.cosmo.f2z(np.mean(uvp.freq_array[uvp.spw_to_freq_indices(spw)]))
@@ -1055,7 +1060,7 @@ def spherical_average(
 
             # get k_sph -> k_cyl mapping for window function
             # get k magnitude of data: (Ndlys,)
-            if not store_window:
+            if not store_window or uvp.exact_windows:
                 continue
             kmags_per_freq = np.sqrt(kperps[blpt_inds][0] ** 2 + kparas_per_freq**2)
             for i, kmag in enumerate(kmags_per_freq):
@@ -1065,7 +1070,7 @@ def spherical_average(
                     # convert kind into an integer for indexing
                     kind = np.where(kind)[0][0]
                 # populate Aw matrix
-                Aw[:, i, kind, :] = 1.0
+                Aw[b, i, kind] = 1.0
 
         # normalize metadata sums
         wgt_array[spw] /= np.max(wgt_array[spw], axis=(2, 3), keepdims=True).clip(
@@ -1105,9 +1110,12 @@ def spherical_average(
             # bin window function: W_sph = H.T W_cyl A
             # wm shape (Npols, Ntimes, Ndlyblps, Ndlyblps)
             wm = np.moveaxis(window_function_array[spw], -1, 0)
-            Aw2 = np.moveaxis(Aw, -1, 0)
-            wm = Ht @ wm @ Aw2
-            window_function_array[spw] = np.moveaxis(wm, 0, -1)
+            # the k_perp of the modes, and hence Aw, differ between baseline-pairs
+            wsph = np.zeros((uvp.Npols, uvp.Ntimes, Nk, Nk_theory), dtype=np.float64)
+            for b in range(uvp.Nblpairs):
+                blpslice = slice(Ndlys * b, Ndlys * (b + 1))
+                wsph += Ht[..., blpslice] @ wm[:, :, blpslice] @ Aw[b]
+            window_function_array[spw] = np.moveaxis(wsph, 0, -1)
 
         if store_stats:
             # bin stats: C_sph = H.T C_cyl H
-- 
2.43.0


From c748972d3d19d11c7db63dfaa763de525a8b546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 031/144] fix: spherical_wf_from_uvp mixed the times and
 baseline-pairs of the cylindrical windows

---
 src/hera_pspec/grouping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index cd90076..f3775de 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1416,7 +1416,9 @@ def spherical_wf_from_uvp(
 
             cyl_wf = uvp.window_function_array[spw][..., ip]
             # separate baseline-time axis to iterate over times
-            cyl_wf = cyl_wf.reshape((uvp.Ntimes, uvp.Nblpairs, *cyl_wf.shape[1:]))
+            # (average_spectra stores all times of a group together)
+            cyl_wf = cyl_wf.reshape((uvp.Nblpairs, uvp.Ntimes, *cyl_wf.shape[1:]))
+            cyl_wf = np.swapaxes(cyl_wf, 0, 1)
 
             # take average for each time
             for it in range(uvp.Ntimes):
-- 
2.43.0


From 6004c6973ea2bba928dcf15e663bd7b4400d4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 032/144] fix: average groups and times in spherical_average
 also with exact window functions

---
 src/hera_pspec/grouping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index f3775de..d74443d 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -849,7 +849,7 @@ def spherical_average(
     assert np.all(kbin_left[1:] >= kbin_right[:-1] - 1e-6), "kbins must not overlap"
 
     # perform time and cylindrical averaging upfront if requested
-    if not uvp.exact_windows and (blpair_groups is not None or time_avg):
+    if blpair_groups is not None or time_avg:
         uvp.average_spectra(
             blpair_groups=blpair_groups,
             time_avg=time_avg,
@@ -1142,8 +1142,9 @@ def spherical_average(
             cov_array_imag[spw] = np.zeros_like(cov_array_real[spw])
 
     if uvp.exact_windows and store_window:
+        # this performs the cylindrical averaging of the window functions itself
         window_function_array = spherical_wf_from_uvp(
-            uvp,
+            uvp_in,
             np.r_[kbin_left, kbin_right[-1]],
             kbin_edges_theory=np.r_[kbin_left_theory, kbin_right_theory[-1]],
             blpair_groups=blpair_groups,
-- 
2.43.0


From a307976557b8a5d5d22f986497808fe422421ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 033/144] fix: propagate the real and imaginary parts of error
 bars separately in averages

---
 src/hera_pspec/grouping.py | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index d74443d..3e43abe 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -153,6 +153,32 @@ def sample_baselines(bls, seed=None):
     return [random.choice(bls) for i in range(len(bls))]
 
 
+def _square_errors(errs):
+    """
+    Square finite error bars. The real and imaginary parts of complex error bars
+    are the errors of the real and imaginary parts of the power spectra, and are
+    squared separately.
+    """
+    if np.iscomplexobj(errs):
+        out = np.empty(np.shape(errs), dtype=np.complex128)
+        out.real, out.imag = _square_errors(errs.real), _square_errors(errs.imag)
+        return out
+    out = np.array(errs, dtype=np.float64)
+    np.square(out, out=out, where=np.isfinite(out))
+    return out
+
+
+def _sqrt_errors(sq_errs):
+    """
+    Error bars from squared error bars, see _square_errors.
+    """
+    if np.iscomplexobj(sq_errs):
+        out = np.empty(np.shape(sq_errs), dtype=np.complex128)
+        out.real, out.imag = np.sqrt(sq_errs.real), np.sqrt(sq_errs.imag)
+        return out
+    return np.sqrt(sq_errs)
+
+
 def average_spectra(
     uvp_in,
     blpair_groups=None,
@@ -438,9 +464,8 @@ def average_spectra(
                     # Get squared statistic
                     errws = {}
                     for stat in stat_l:
-                        errws[stat] = uvp_full.get_stats(stat, (spw, blp, p)).copy()
-                        np.square(
-                            errws[stat], out=errws[stat], where=np.isfinite(errws[stat])
+                        errws[stat] = _square_errors(
+                            uvp_full.get_stats(stat, (spw, blp, p))
                         )
                         # shape of errs: (Ntimes, Ndlys)
 
@@ -573,7 +598,7 @@ def average_spectra(
                     # set zero stats to inf, as they should be
                     stat_avg[stat_avg == 0] = np.inf
                     # take sqrt to get back to stat units
-                    bpg_stats[stat] = np.sqrt(stat_avg)
+                    bpg_stats[stat] = _sqrt_errors(stat_avg)
                 if store_window:
                     if uvp.exact_windows:
                         bpg_window_function = (
@@ -1121,11 +1146,10 @@ def spherical_average(
             # bin stats: C_sph = H.T C_cyl H
             for stat in stats_array:
                 # get squared stat and clip infs b/c linalg doesn't like them
-                sq_stat = stats_array[stat][spw].copy()
-                np.square(sq_stat, out=sq_stat, where=np.isfinite(sq_stat))
+                sq_stat = _square_errors(stats_array[stat][spw])
                 sq_stat = np.nan_to_num(sq_stat, copy=False, nan=np.inf, posinf=np.inf)
                 # einsum is fast enough for this, and is more succinct than matmul
-                avg_stat = np.sqrt(
+                avg_stat = _sqrt_errors(
                     np.einsum("ptik,tip,ptik->tkp", H, sq_stat.clip(0, 1e40), H)
                 )
                 # set zeroed stats to large number
-- 
2.43.0


From 75b8f2db180f3bc61467ef4b6c5e5510e4815f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:29 +0000
Subject: [PATCH 034/144] fix: keep error bars below 1e-8 in spherical_average

---
 src/hera_pspec/grouping.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 3e43abe..9045727 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1121,8 +1121,11 @@ def spherical_average(
                 for b in range(uvp.Nblpairs):
                     blpslice = slice(Ndlys * b, Ndlys * (b + 1))
                     EmAm[p, t, blpslice] = Em[p, t, blpslice] @ Am[p, t, blpslice]
-        invAEA = np.linalg.pinv(Am.transpose(0, 1, 3, 2) @ EmAm)
+        AEA = Am.transpose(0, 1, 3, 2) @ EmAm
+        invAEA = np.linalg.pinv(AEA)
         H = EmAm @ invAEA
+        # bins without modes of non-zero weight: shape (Ntimes, Nk, Npols)
+        empty_bins = np.moveaxis(np.diagonal(AEA, axis1=2, axis2=3) == 0, 0, -1)
         Ht = H.transpose(0, 1, 3, 2)
 
         # bin data: p_sph = H.T p_cyl
@@ -1152,8 +1155,8 @@ def spherical_average(
                 avg_stat = _sqrt_errors(
                     np.einsum("ptik,tip,ptik->tkp", H, sq_stat.clip(0, 1e40), H)
                 )
-                # set zeroed stats to large number
-                avg_stat[np.isclose(avg_stat, 0)] = 1e40
+                # set stats of empty bins to large number
+                avg_stat[empty_bins] = 1e40
                 # update stats_array
                 stats_array[stat][spw] = avg_stat
 
-- 
2.43.0


From 1e3494d6de4daaab4e736cda7b07f418a9424d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 035/144] fix: average_in_delay_bins normalised the caller's
 kernel in place

---
 src/hera_pspec/grouping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 9045727..331be77 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2481,7 +2481,7 @@ def average_in_delay_bins(
     else:
         cov_weighted_stats = ()
 
-    kernel = np.asarray(kernel, dtype=float)
+    kernel = np.array(kernel, dtype=float)
     if not kernel.ndim == 1:
         raise ValueError("The kernel must be 1D!")
 
@@ -2491,7 +2491,7 @@ def average_in_delay_bins(
             "The kernel size must be smaller than half the size of the delay array!"
         )
 
-    zero_bin_kernel = np.asarray(zero_bin_kernel, dtype=float)
+    zero_bin_kernel = np.array(zero_bin_kernel, dtype=float)
     if not np.allclose(zero_bin_kernel, zero_bin_kernel[::-1]):
         raise ValueError("The zero bin kernel must be symmetric!")
 
-- 
2.43.0


From 02443b7e082e280e64b473641baba594e4bffb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 036/144] fix: update Ndlys in average_in_delay_bins

---
 src/hera_pspec/grouping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 331be77..16c574d 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2573,5 +2573,6 @@ def average_in_delay_bins(
     new_uvp.dly_array = np.concatenate(dly_array)
     new_uvp.spw_dly_array = np.concatenate(spw_dly_array)
     new_uvp.Nspwdlys = len(new_uvp.dly_array)
+    new_uvp.Ndlys = len(np.unique(new_uvp.dly_array))
 
     return new_uvp
-- 
2.43.0


From 55caa75b4edd26915df028a57eaad5630389dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:27 +0000
Subject: [PATCH 037/144] fix: ignore the extra negative delay of even windows
 in average_in_delay_bins

---
 src/hera_pspec/grouping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 16c574d..f4033da 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2382,9 +2382,11 @@ def _get_delay_slices(
 
     # We're going to try to keep the symmetry betwen negative and positive delays.
     # This means we keep the zero delay un-averaged.
+    # Ignore negative delays without a positive counterpart.
+    low_min = max(0, 2 * zero_idx + 1 - n)
     neg_slices = []
     low = zero_idx - nk - nzero // 2
-    while low >= 0:
+    while low >= low_min:
         neg_slices.append(slice(low, low + nk))
         low -= nk
 
-- 
2.43.0


From c304cc34083dd4be9c5ab6151255fc3d7a416290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 038/144] fix: bin complex and infinite error bars in
 average_in_delay_bins

---
 src/hera_pspec/grouping.py | 54 +++++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index f4033da..03807f8 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2296,24 +2296,35 @@ def _bin_rms_like_array(
 
     This computes the square root of the weighted mean of squares, but rescales each
     slice before squaring so large finite values do not overflow on the intermediate
-    square.
+    square. The real and imaginary parts of complex values are the errors of the
+    real and imaginary parts of the power spectra, and are binned separately.
+    Bins with non-finite values are infinite.
     """
     newshape = list(d.shape)
     newshape[axis] = len(slices)
+    if np.iscomplexobj(d):
+        out = np.zeros(newshape, dtype=np.complex128)
+        out.real = _bin_rms_like_array(d.real, kernels, slices, axis=axis)
+        out.imag = _bin_rms_like_array(d.imag, kernels, slices, axis=axis)
+        return out
+
     dswapped = np.abs(d).astype(np.float64, copy=False).swapaxes(-1, axis)
     out = np.zeros(newshape, dtype=np.result_type(dswapped.dtype, np.float64))
     outswapped = out.swapaxes(-1, axis)
 
     for i, (slc, kernel) in enumerate(zip(slices, kernels)):
-        vals = dswapped[..., slc]
+        # skip delays of zero weight, which must not matter
+        vals, kernel = dswapped[..., slc][..., kernel != 0], kernel[kernel != 0]
         scale = np.max(vals, axis=-1)
+        finite = np.isfinite(scale)
         scaled = np.divide(
             vals,
             scale[..., np.newaxis],
             out=np.zeros_like(vals, dtype=out.dtype),
-            where=scale[..., np.newaxis] != 0,
+            where=(finite & (scale != 0))[..., np.newaxis],
         )
-        outswapped[..., i] = scale * np.sqrt(np.sum((scaled**2) * kernel, axis=-1))
+        rms = np.sqrt(np.sum((scaled**2) * kernel, axis=-1))
+        outswapped[..., i] = np.where(finite, np.where(finite, scale, 0) * rms, np.inf)
 
     return out
 
@@ -2336,6 +2347,31 @@ def _bin_cov_like_array(
     return newcov
 
 
+def _bin_corr_stat(
+    stat: np.ndarray, corr: np.ndarray, kernels: list[np.ndarray], slices: list[slice]
+):
+    """Bin a standard-deviation-like array with known correlations between delays.
+
+    This function is internally used for :func:`average_in_delay_bins`. Real and
+    imaginary parts of complex values are binned separately, and bins with non-finite
+    values are infinite.
+    """
+    if np.iscomplexobj(stat):
+        out = np.empty((len(stat), len(slices), stat.shape[2]), dtype=np.complex128)
+        out.real = _bin_corr_stat(stat.real, corr, kernels, slices)
+        out.imag = _bin_corr_stat(stat.imag, corr, kernels, slices)
+        return out
+
+    bad = ~np.isfinite(stat)
+    stat = np.where(bad, 0.0, stat)
+    newcov = _bin_cov_like_array(
+        corr * stat[:, :, None] * stat[:, None], kernels, slices
+    )
+    newstat = np.sqrt(np.diagonal(newcov, axis1=1, axis2=2)).transpose((0, 2, 1))
+    hit = _bin_data_like_array(bad, [krn != 0 for krn in kernels], slices)
+    return np.where(hit, np.inf, newstat)
+
+
 def _get_delay_slices(
     dly: np.ndarray, kernel: np.ndarray, zero_kernel: np.ndarray = np.ones(1)
 ) -> tuple[list[slice], list[np.ndarray]]:
@@ -2556,14 +2592,8 @@ def average_in_delay_bins(
 
             denom = diag[:, :, None] * diag[:, None]
             corr = uvp.cov_array_real[spw] / denom
-            thiscov = (
-                corr
-                * uvp.stats_array[stat][spw][:, :, None]
-                * uvp.stats_array[stat][spw][:, None]
-            )
-            newc = _bin_cov_like_array(thiscov, kernels, slices)
-            stats[stat] = np.diagonal(np.sqrt(newc), axis1=1, axis2=2).transpose(
-                (0, 2, 1)
+            stats[stat] = _bin_corr_stat(
+                uvp.stats_array[stat][spw], corr, kernels, slices
             )
 
         spw_dly_array.append(np.ones(newn, dtype=int) * spw)
-- 
2.43.0


From 165b9d50fb7122cc96ab246ad2d8db07537f7042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 039/144] fix: select_common did not select the common
 polarization pairs

---
 src/hera_pspec/uvpspec_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 17b29ec..5e1eb9f 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -365,7 +365,7 @@ def select_common(
         if lsts:
             _lsts = common_lsts
         if polpairs:
-            _pols = common_polpairs
+            _polpairs = common_polpairs
         if spws:
             _spws = [uvp.get_spw_ranges().index(j) for j in common_spws]
 
-- 
2.43.0


From 532c9d6fe079b0a0f1df1a7b0a537eb103244e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 040/144] fix: bootstrap_average_blpairs of several UVPSpec
 objects

---
 src/hera_pspec/grouping.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 03807f8..922f75d 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1789,7 +1789,14 @@ def bootstrap_average_blpairs(uvp_list, blpair_groups, time_avg=False, seed=None
     # Homogenise input UVPSpec objects in terms of available polarizations
     # and spectral windows
     if len(uvp_list) > 1:
-        uvp_list = uvputils.select_common(uvp_list, spws=True, pols=True, inplace=False)
+        uvp_list = uvputils.select_common(
+            uvp_list,
+            spws=True,
+            polpairs=True,
+            blpairs=False,
+            times=False,
+            inplace=False,
+        )
 
     # Loop over UVPSpec objects, looking for available blpairs in each
     avail_blpairs = [_ordered_unique(uvp.blpair_array) for uvp in uvp_list]
-- 
2.43.0


From 002d26e116ca30ed5ef3a59a078f53ef4dfb8351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:43 +0000
Subject: [PATCH 041/144] fix: bootstrap draws that take nothing from one of
 several UVPSpec objects

---
 src/hera_pspec/grouping.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 922f75d..5c90dff 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1854,13 +1854,31 @@ def bootstrap_average_blpairs(uvp_list, blpair_groups, time_avg=False, seed=None
     # using the bootstrap-sampled blpair weights
     uvp_avg = []
     for i, uvp in enumerate(uvp_list):
+        # Groups without baseline-pairs in this object are left out. Groups from
+        # which nothing was drawn are averaged, but carry no data (see below).
+        grps, wgts, undrawn = [], [], []
+        for grp, wgt in zip(blpair_grps_list[i], blpair_wgts_list[i]):
+            if len(grp) == 0:
+                continue
+            if np.sum(wgt) == 0:
+                undrawn.append(grp[0])
+                wgt = [1.0] * len(grp)
+            grps.append(grp)
+            wgts.append(wgt)
         _uvp = average_spectra(
             uvp,
-            blpair_groups=blpair_grps_list[i],
-            blpair_weights=blpair_wgts_list[i],
+            blpair_groups=grps if len(grps) > 0 else None,
+            blpair_weights=wgts if len(grps) > 0 else None,
             time_avg=time_avg,
             inplace=False,
         )
+        for blp in undrawn:
+            inds = _uvp.blpair_to_indices(blp)
+            for spw in _uvp.spw_array:
+                _uvp.data_array[spw][inds] = 0.0
+                _uvp.wgt_array[spw][inds] = 0.0
+                _uvp.integration_array[spw][inds] = 0.0
+                _uvp.nsample_array[spw][inds] = 0.0
         uvp_avg.append(_uvp)
 
     # Return list of averaged spectra for now
-- 
2.43.0


From 9438f572538e93aed79c0ebd91f9c006a475c8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:09 +0000
Subject: [PATCH 042/144] fix: reading a UVPSpec dropped the r_params of
 baselines it does not hold

---
 src/hera_pspec/uvpspec_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 5e1eb9f..ebffc94 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -941,6 +941,10 @@ def _select(
         uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
 
     # select r_params based on new bl_array
+    # (with no selection that can remove a baseline, keep them as they are)
+    if all(sel is None for sel in (bls, blpairs, times, lsts, polpairs)):
+        return
+
     blp_keys = uvp.get_all_keys()
     blkeys = []
     for blpkey in blp_keys:
-- 
2.43.0


From 8da7cd8cf047652bd100cd1f77c0cbf553a149f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:51 +0000
Subject: [PATCH 043/144] fix: bootstrap errors of folded spectra

---
 src/hera_pspec/uvpspec.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index fedec55..4d17c83 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1123,11 +1123,20 @@ class UVPSpec:
 
         statistic : ndarray
             2D ndarray with statistics to set. Must conform to shape of the
-            slice of data_array produced by the specified key.
+            slice of data_array produced by the specified key. If the spectra
+            are folded, it can also have the shape returned by get_data, with
+            positive delays only.
         """
         spw, blpairts, polpair = self.key_to_indices(key)
         statistic = np.asarray(statistic)
         data_shape = self.data_array[spw][blpairts, :, polpair].shape
+        dlys = slice(None)
+
+        # folded spectra are only defined at positive delays
+        if self.folded and statistic.shape == self.get_data(key).shape:
+            Ndlys = data_shape[1]
+            dlys = slice(-(Ndlys - Ndlys // 2 - 1), None)
+            data_shape = statistic.shape
 
         if data_shape != statistic.shape:
             errmsg = f"Input array shape {statistic.shape} must match data_array shape {data_shape}."
@@ -1145,7 +1154,7 @@ class UVPSpec:
                 ]
             )
 
-        self.stats_array[stat][spw][blpairts, :, polpair] = statistic
+        self.stats_array[stat][spw][blpairts, dlys, polpair] = statistic
 
     def set_stats_slice(self, stat, m, b, above=False, val=1e20):
         """
-- 
2.43.0


From f654dafe246b5df419833a821fbb17888004801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 044/144] fix: Om_b and Om_c inconsistent with a given Om_M

---
 src/hera_pspec/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/conversions.py b/src/hera_pspec/conversions.py
index e7279d2..b10e758 100644
--- a/src/hera_pspec/conversions.py
+++ b/src/hera_pspec/conversions.py
@@ -106,7 +106,7 @@ class Cosmo_Conversions:
         """
         # Setup parameters
         if Om_M is not None:
-            if np.isclose(Om_b + Om_c, Om_M, atol=1e-5) is False:
+            if not np.isclose(Om_b + Om_c, Om_M, atol=1e-5):
                 Om_b = Om_M * 0.156635
                 Om_c = Om_M * 0.843364
         else:
-- 
2.43.0


From bc7414e84fe0bfe4d0c287e97297376c8aace37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:52 +0000
Subject: [PATCH 045/144] fix: saving cosmologies with numpy parameters

---
 src/hera_pspec/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/conversions.py b/src/hera_pspec/conversions.py
index b10e758..b6a18ab 100644
--- a/src/hera_pspec/conversions.py
+++ b/src/hera_pspec/conversions.py
@@ -133,7 +133,7 @@ class Cosmo_Conversions:
         """
         Return a dictionary with cosmological parameters.
         """
-        return dict([(p, getattr(self, p)) for p in self.params])
+        return dict([(p, float(getattr(self, p))) for p in self.params])
 
     def f2z(self, freq, ghz=False):
         """
-- 
2.43.0


From cbeb2390b6c37c84d8b7b18b476b2e068c63ff87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 046/144] fix: convert_to_deltasq of folded spectra

---
 src/hera_pspec/uvpspec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 4d17c83..9e4b183 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1226,7 +1226,9 @@ class UVPSpec:
         for spw in range(uvp.Nspws):
             # get k vectors
             k_perp = uvp.get_kperps(spw, little_h=little_h)
-            k_para = uvp.get_kparas(spw, little_h=little_h)
+            # (all delays: folded spectra keep their negative delays in the arrays)
+            dlys = uvp.dly_array[uvp.spw_dly_array == spw]
+            k_para = uvp.get_kparas(spw, little_h=little_h, dlys=dlys)
             k_mag = np.sqrt(k_perp[:, None, None] ** 2 + k_para[None, :, None] ** 2)
             # shape of (Nbltpairs, spw_Ndlys, Npols)
             coeff = k_mag**3 / (2 * np.pi**2)
-- 
2.43.0


From a4721003b756df44282e24745c6160b2fbe9085f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 047/144] fix: set_cosmology of spectra in units without little
 h

---
 src/hera_pspec/uvpspec.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 9e4b183..2b75d52 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2181,10 +2181,12 @@ class UVPSpec:
         # Update scalar_array
         if verbose:
             print("Updating scalar array and re-normalizing power spectra")
+        # keep the units of spectra that already are in cosmological units
+        little_h = "h^-3" in self.norm_units or "Mpc" not in self.norm_units
         for spw in range(self.Nspws):
             for j, polpair in enumerate(self.polpair_array):
                 scalar = self.compute_scalar(
-                    spw, polpair, num_steps=1000, little_h=True, noise_scalar=False
+                    spw, polpair, num_steps=1000, little_h=little_h, noise_scalar=False
                 )
 
                 # renormalize power spectra with new scalar
-- 
2.43.0


From 4b51d5efa2d98faf7112538e5c3afb29719c6c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 048/144] fix: combine_psc_spectra of containers that are not
 kept open

---
 src/hera_pspec/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index a680ea4..3412c14 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -578,7 +578,7 @@ def combine_psc_spectra(
     # Iterate over groups
     for grp in groups:
         # Get spectra in this group
-        spectra = list(psc.data[grp].keys())
+        spectra = psc.spectra(grp)
 
         # Get unique spectra by splitting and then re-joining
         unique_spectra = []
@@ -620,9 +620,12 @@ def combine_psc_spectra(
                 # write to file
                 psc.set_pspec(grp, spc, merged_uvp, overwrite=True)
                 # if successful merge, remove uvps
+                psc._open()
                 for uvp_name in to_merge:
                     if uvp_name != spc:
                         del psc.data[grp][uvp_name]
+                if not psc.keep_open:
+                    psc._close()
             except Exception as exc:
                 # merge failed, so continue
                 if verbose:
-- 
2.43.0


From 96d0158ca25ec63772b43b5073273137925ed8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 049/144] fix: combine_psc_spectra merged spectra whose names
 contain another's name

---
 src/hera_pspec/container.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index 3412c14..7e96f25 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -4,7 +4,6 @@ import warnings
 from functools import wraps
 
 import h5py
-import numpy as np
 
 from . import __version__, utils, uvpspec
 
@@ -582,6 +581,7 @@ def combine_psc_spectra(
 
         # Get unique spectra by splitting and then re-joining
         unique_spectra = []
+        spectra_parts = {}
         for spc in spectra:
             if dset_split_str == "" or dset_split_str is None:
                 sp = spc.split(ext_split_str)[0]
@@ -592,6 +592,7 @@ def combine_psc_spectra(
                 sp = dset_split_str.join(sp)
             if sp not in unique_spectra:
                 unique_spectra.append(sp)
+            spectra_parts.setdefault(sp, []).append(spc)
 
         # Iterate over each unique spectra, and merge all spectra extensions
         for spc in unique_spectra:
@@ -605,9 +606,7 @@ def combine_psc_spectra(
                 continue
 
             # get merge list
-            to_merge = [
-                spectra[i] for i in np.where([spc in _sp for _sp in spectra])[0]
-            ]
+            to_merge = spectra_parts[spc]
             try:
                 # merge
                 uvps = [psc.get_pspec(grp, uvp) for uvp in to_merge]
-- 
2.43.0


From b38925cc56360f736a8b98245ee874e88a60d2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 050/144] fix: a failed store in a PSpecContainer deleted the
 spectrum it was to replace

---
 src/hera_pspec/container.py | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index 7e96f25..04b021e 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -334,19 +334,24 @@ class PSpecContainer:
         key2 = "%s" % psname
 
         # Check that the group exists
-        if key1 not in list(self.data.keys()):
+        new_group = key1 not in list(self.data.keys())
+        if new_group:
             grp = self.data.create_group(key1)
         else:
             grp = self.data[key1]
 
         # Check that the psname exists
+        backup = None
         if key2 not in list(grp.keys()):
             # Create group if it doesn't exist
             psgrp = grp.create_group(key2)
         else:
             if overwrite:
-                # Delete group and recreate
-                del grp[key2]
+                # Set the old group aside until the new one has been written
+                backup = f"{key2}__old"
+                while backup in grp:
+                    backup += "_"
+                grp.move(key2, backup)
                 psgrp = grp.create_group(key2)
             else:
                 raise AttributeError(
@@ -354,11 +359,24 @@ class PSpecContainer:
                     % (key1, key2)
                 )
 
-        # Add power spectrum to this group
-        self._store_pspec(psgrp, pspec)
-
-        # Store info about what kind of power spectra are in the group
-        psgrp.attrs["pspec_type"] = pspec.__class__.__name__
+        try:
+            # Add power spectrum to this group
+            self._store_pspec(psgrp, pspec)
+
+            # Store info about what kind of power spectra are in the group
+            psgrp.attrs["pspec_type"] = pspec.__class__.__name__
+        except Exception:
+            # Leave the container as it was
+            del grp[key2]
+            if backup is not None:
+                grp.move(backup, key2)
+            if new_group:
+                del self.data[key1]
+            raise
+
+        # Delete the old group
+        if backup is not None:
+            del grp[backup]
 
     @transactional
     def get_pspec(self, group, psname=None, **kwargs):
-- 
2.43.0


From 25312319a25c161e461878bc65ced02de51ed4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 051/144] fix: V^-1/2 normalization of complex covariances

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 9eab887..d6785da 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2595,7 +2595,7 @@ class PSpecData:
                 eigvals = eigvals[~nonpos_eigvals]
                 eigvects = eigvects[:, ~nonpos_eigvals]
             V_minus_half = np.dot(
-                eigvects, np.dot(np.diag(1.0 / np.sqrt(eigvals)), eigvects.T)
+                eigvects, np.dot(np.diag(1.0 / np.sqrt(eigvals)), eigvects.conj().T)
             )
 
             W_norm = np.diag(1.0 / np.sum(np.dot(V_minus_half, H), axis=1))
-- 
2.43.0


From bf62b36b621721ddd38117656837262649a0ee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 052/144] fix: PSpecData.scalar ignored taper_override

---
 src/hera_pspec/pspecdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index d6785da..857effa 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3090,7 +3090,7 @@ class PSpecData:
                 end,
                 len(freqs),
                 pol=pol,
-                taper=self.taper,
+                taper=taper,
                 little_h=little_h,
                 num_steps=num_steps,
                 exact_norm=exact_norm,
@@ -3101,7 +3101,7 @@ class PSpecData:
                 end,
                 len(freqs),
                 pol=pol,
-                taper=self.taper,
+                taper=taper,
                 little_h=little_h,
                 num_steps=num_steps,
                 exact_norm=exact_norm,
-- 
2.43.0


From 4c8a52effe1d1d2c60c492695af7a90f46666f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 053/144] fix: exact_norm spectra of several polarizations
 shared one normalization

---
 src/hera_pspec/pspecdata.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 857effa..7b0d20f 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3857,9 +3857,12 @@ class PSpecData:
                             [self.Y(key1).diagonal(), self.Y(key2).diagonal()]
                         )
 
-                        # Second: check cache for Y
+                        # Second: check cache for Y. With exact_norm, G and H also
+                        # depend on the beam of this polarization
                         matches = [
-                            np.isclose(Y, y).all() for y in self._identity_Y.values()
+                            np.isclose(Y, y).all()
+                            and (not exact_norm or keys[0][-1] == key1[-1])
+                            for keys, y in self._identity_Y.items()
                         ]
                         if True in matches:
                             # This Y exists, so pick appropriate G and H and continue
-- 
2.43.0


From 5afcbeac4d4806f728b4e022a2c48b44c7cba31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 054/144] fix: pspec lost its times when the first polarization
 pair is invalid

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 7b0d20f..4860264 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4074,7 +4074,7 @@ class PSpecData:
                     )
 
                     # insert time and blpair info only once per blpair
-                    if i < 1 and j < 1:
+                    if i < 1 and len(spw_polpair) == 1:
                         # insert time info
                         # inds is a slice if dset1 has rectangular blts.
                         inds1 = dset1.antpair2ind(bl1, ordered=False)
-- 
2.43.0


From d180bc5c9ba7e6eca5463346c37fcde009ac83c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 055/144] fix: pspec dropped the history it was given

---
 src/hera_pspec/pspecdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 4860264..ab63e93 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4241,6 +4241,7 @@ class PSpecData:
                 dset2.history,
                 "-" * 20,
             )
+            + history
         )
 
         if self.primary_beam is not None:
-- 
2.43.0


From 4e5c2ea79f78d562a891e2e77f4b867f086d2b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 056/144] fix: pspec weights covered the filter extension

---
 src/hera_pspec/pspecdata.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index ab63e93..ae1cfc2 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4024,18 +4024,20 @@ class PSpecData:
                     else:
                         pol_data.extend(qv.T)
 
-                    # get weights
-                    wgts1 = self.w(key1).T
-                    wgts2 = self.w(key2).T
+                    # get weights of the channels in the spectral window
+                    fext0 = self.filter_extension[0]
+                    window = slice(fext0, fext0 + self.spw_Nfreqs)
+                    wgts1 = self.w(key1)[window].T
+                    wgts2 = self.w(key2)[window].T
 
                     # get avg of nsample across frequency axis, weighted by wgts
                     nsamp1 = np.sum(
-                        dset1.get_nsamples(bl1 + (p[0],))[:, slice(*self.get_spw())]
+                        dset1.get_nsamples(bl1 + (p[0],))[:, slice(*self.spw_range)]
                         * wgts1,
                         axis=1,
                     ) / np.sum(wgts1, axis=1).clip(1, np.inf)
                     nsamp2 = np.sum(
-                        dset2.get_nsamples(bl2 + (p[1],))[:, slice(*self.get_spw())]
+                        dset2.get_nsamples(bl2 + (p[1],))[:, slice(*self.spw_range)]
                         * wgts2,
                         axis=1,
                     ) / np.sum(wgts2, axis=1).clip(1, np.inf)
-- 
2.43.0


From 2e33c4db61a4219eb0b2a763b03b48de1169a744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 057/144] fix: one-sided filter extensions kept the symmetric
 taper

---
 src/hera_pspec/pspecdata.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index ae1cfc2..18078cc 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1234,10 +1234,8 @@ class PSpecData:
             filter will be applied to data.
             filter_extensions will be clipped to not extend beyond data range.
         """
-        if (
-            self.symmetric_taper
-            and not filter_extension[0] == 0
-            and not filter_extension[1] == 0
+        if self.symmetric_taper and (
+            filter_extension[0] != 0 or filter_extension[1] != 0
         ):
             raise_warning(
                 "You cannot set filter extensions greater then zero when symmetric_taper==True! Setting symmetric_taper==False!"
@@ -4137,7 +4135,8 @@ class PSpecData:
 
         # fill uvp object
         uvp = uvpspec.UVPSpec()
-        uvp.symmetric_taper = symmetric_taper
+        # filter extensions may have switched the symmetric taper off
+        uvp.symmetric_taper = self.symmetric_taper
         # fill meta-data
         uvp.time_1_array = np.array(time1)
         uvp.time_2_array = np.array(time2)
-- 
2.43.0


From 35f48093a9b16920a9e75976befe608f2f916921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 058/144] fix: pspec set Ntimes to the number of times instead
 of time-pairs

---
 src/hera_pspec/pspecdata.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 18078cc..3ecb764 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4148,13 +4148,6 @@ class PSpecData:
         uvp.lst_avg_array = utils.circular_average(angles, axis=0)
         uvp.blpair_array = np.array(blp_arr)
         uvp.Nblpairs = len(np.unique(blp_arr))
-        # Ntimes in a uvpspec object now means the total number of times.
-        # In all possible datasets that could be produced by pspecdata this
-        # is equal to Ntpairs or 2 x Ntpairs if we interleave
-        # but we have given upspec the capability to have this
-        # not necessarily be the same.
-        # Ntimes could still be the number of "average times" which might be useful for noise purposes.
-        uvp.Ntimes = len(np.unique(np.hstack([uvp.time_1_array, uvp.time_2_array])))
         uvp.Nbltpairs = len(
             set(
                 (blp, t1, t2)
@@ -4166,6 +4159,8 @@ class PSpecData:
         uvp.Ntpairs = len(
             set((t1, t2) for t1, t2 in zip(uvp.time_1_array, uvp.time_2_array))
         )
+        # Ntimes is the number of unique time-pairs (see UVPSpec)
+        uvp.Ntimes = uvp.Ntpairs
         bls_arr = sorted(set(bls_arr))
         uvp.bl_array = np.array([uvp.antnums_to_bl(bl) for bl in bls_arr])
         antpos = dict(
-- 
2.43.0


From 7cf074d5598b0dc4b659c3b13fb83269c81050d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 059/144] fix: cached weighting matrices outlived a change of
 window, taper or filter

---
 src/hera_pspec/pspecdata.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 3ecb764..1d6a515 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -293,6 +293,8 @@ class PSpecData:
 
         # Store the actual frequencies
         self.freqs = self.dsets[0].freq_array
+        if self.spw_range != (0, self.Nfreqs):
+            self.clear_cache()
         self.spw_range = (0, self.Nfreqs)
         self.spw_Nfreqs = self.Nfreqs
         self.spw_Ndlys = self.spw_Nfreqs
@@ -1221,6 +1223,8 @@ class PSpecData:
                 "You cannot use a symmetric taper when there are nonzero filter extensions."
             )
         else:
+            if use_symmetric_taper != self.symmetric_taper:
+                self._R = {}
             self.symmetric_taper = use_symmetric_taper
 
     def set_filter_extension(self, filter_extension):
@@ -1240,7 +1244,7 @@ class PSpecData:
             raise_warning(
                 "You cannot set filter extensions greater then zero when symmetric_taper==True! Setting symmetric_taper==False!"
             )
-            self.symmetric_taper = False
+            self.set_symmetric_taper(False)
         assert isinstance(filter_extension, (list, tuple)), (
             "filter_extension must a tuple or list"
         )
@@ -1266,6 +1270,9 @@ class PSpecData:
         filter_extension[1] = np.min(
             [self.Nfreqs - self.spw_range[1], filter_extension[1]]
         )  # clip extension to not extend beyond data range
+        if tuple(filter_extension) != tuple(self.filter_extension):
+            # cached matrices belong to the previous extension
+            self.clear_cache()
         self.filter_extension = tuple(filter_extension)
 
     def set_weighting(self, data_weighting):
@@ -1312,6 +1319,9 @@ class PSpecData:
         """
         key = self.parse_blkey(key)
         key = (self.data_weighting,) + key
+        if self.r_params.get(key) is not r_params:
+            # cached R matrices of this key belong to the previous parameters
+            self._R = {k: R for k, R in self._R.items() if k[:2] != key[1:]}
         self.r_params[key] = r_params
 
     def set_taper(self, taper):
@@ -1343,6 +1353,9 @@ class PSpecData:
         assert isinstance(spw_range[0], (int, np.integer)), (
             "spw_range must be fed as len-2 integer tuple"
         )
+        if tuple(spw_range) != tuple(self.spw_range):
+            # cached matrices belong to the previous window
+            self.clear_cache()
         self.spw_range = spw_range
         self.spw_Nfreqs = spw_range[1] - spw_range[0]
         self.set_Ndlys(ndlys=ndlys)
-- 
2.43.0


From c238c49f5070947773c82ce41eed14f61b03ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 060/144] fix: analytic covariances compared only the first and
 last time for uniformity

---
 src/hera_pspec/pspecdata.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 1d6a515..eb8d3ea 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2179,17 +2179,16 @@ class PSpecData:
         if model != "foreground_dependent":
             # When model is 'foreground_dependent', since we are processing the outer products of visibilities from different times,
             # we are expected to have time-dependent inputs, thus check_uniform_input is always set to be False here.
-            C11_first = self.C_model(
-                key1, model=model, known_cov=known_cov, time_index=0
-            )
-            C11_last = self.C_model(
-                key1,
-                model=model,
-                known_cov=known_cov,
-                time_index=self.dsets[0].Ntimes - 1,
+            # Cross-covariances that are not zero or time-averaged may also vary.
+            check_uniform_input = model in ["empirical", "dsets", "autos"] and all(
+                np.allclose(
+                    self.C_model(key, model=model, known_cov=known_cov, time_index=0),
+                    self.C_model(key, model=model, known_cov=known_cov, time_index=t),
+                    atol=0,
+                )
+                for key in (key1, key2)
+                for t in range(1, self.dsets[0].Ntimes)
             )
-            if np.isclose(C11_first, C11_last).all():
-                check_uniform_input = True
 
         cov_q_real, cov_q_imag, cov_p_real, cov_p_imag = [], [], [], []
         for time_index in range(self.dsets[0].Ntimes):
-- 
2.43.0


From b81bfea32e0e4e4a3787cb94e9903d49bdea439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 061/144] fix: analytic covariances of small visibilities were
 taken to be zero

---
 src/hera_pspec/pspecdata.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index eb8d3ea..b7d5895 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2364,7 +2364,7 @@ class PSpecData:
                     time_index=time_index,
                 )
                 # Get q_q, q_qdagger, qdagger_qdagger
-                if np.isclose(P22, 0).all() or np.isclose(S11, 0).all():
+                if not np.any(P22) or not np.any(S11):
                     q_q = 0.0 + 1.0j * 0
                 else:
                     E12P22 = np.matmul(E_matrices, P22)
@@ -2372,7 +2372,7 @@ class PSpecData:
                     q_q = np.einsum(
                         "bij, cji->bc", E12P22, E21starS11, optimize=einstein_path_0
                     )
-                if np.isclose(C21, 0).all():
+                if not np.any(C21):
                     q_q += 0.0 + 1.0j * 0
                 else:
                     E12C21 = np.matmul(E_matrices, C21)
@@ -2384,7 +2384,7 @@ class PSpecData:
                 q_qdagger = np.einsum(
                     "bij, cji->bc", E12C22, E21C11, optimize=einstein_path_0
                 )
-                if np.isclose(P21, 0).all() or np.isclose(S21, 0).all():
+                if not np.any(P21) or not np.any(S21):
                     q_qdagger += 0.0 + 1.0j * 0
                 else:
                     E12P21 = np.matmul(E_matrices, P21)
@@ -2392,14 +2392,14 @@ class PSpecData:
                     q_qdagger += np.einsum(
                         "bij, cji->bc", E12P21, E12starS21, optimize=einstein_path_0
                     )
-                if np.isclose(C12, 0).all():
+                if not np.any(C12):
                     qdagger_qdagger = 0.0 + 1.0j * 0
                 else:
                     E21C12 = np.matmul(np.transpose(E_matrices.conj(), (0, 2, 1)), C12)
                     qdagger_qdagger = np.einsum(
                         "bij, cji->bc", E21C12, E21C12, optimize=einstein_path_0
                     )
-                if np.isclose(P11, 0).all() or np.isclose(S22, 0).all():
+                if not np.any(P11) or not np.any(S22):
                     qdagger_qdagger += 0.0 + 1.0j * 0
                 else:
                     E21P11 = np.matmul(np.transpose(E_matrices.conj(), (0, 2, 1)), P11)
@@ -2417,7 +2417,7 @@ class PSpecData:
 
             m = M[time_index]
             # calculate \sum_{bd} [ M_{ab} M_{cd} (<q_b q_d> - <q_b><q_d>) ]
-            if np.isclose([q_q], 0).all():
+            if not np.any(q_q):
                 MMq_q = np.zeros((E_matrices.shape[0], E_matrices.shape[0])).astype(
                     np.complex128
                 )
@@ -2428,7 +2428,7 @@ class PSpecData:
                 MMq_q = np.einsum("ab,cd,bd->ac", m, m, q_q, optimize=einstein_path_2)
             # calculate \sum_{bd} [ M_{ab} M_{cd}^* (<q_b q_d^\dagger> - <q_b><q_d^\dagger>) ]
             # and \sum_{bd} [ M_{ab}^* M_{cd} (<q_b^\dagger q_d> - <q_b^\dagger><q_d>) ]
-            if np.isclose([q_qdagger], 0).all():
+            if not np.any(q_qdagger):
                 MM_q_qdagger = 0.0 + 1.0j * 0
                 M_Mq_qdagger_ = 0.0 + 1.0j * 0
             else:
@@ -2446,7 +2446,7 @@ class PSpecData:
                     optimize=einstein_path_2,
                 )
             # calculate \sum_{bd} [ M_{ab}^* M_{cd}^* (<q_b^\dagger q_d^\dagger> - <q_b^\dagger><q_d^\dagger>) ]
-            if np.isclose([qdagger_qdagger], 0).all():
+            if not np.any(qdagger_qdagger):
                 M_M_qdagger_qdagger = 0.0 + 1.0j * 0
             else:
                 assert np.shape(qdagger_qdagger) == np.shape(m), (
-- 
2.43.0


From 1eded9d710901c4a25452779e33969fb6299dda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:05 +0000
Subject: [PATCH 062/144] fix: external weights made pspec fail its own check

---
 src/hera_pspec/pspecdata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index b7d5895..c0e5785 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4037,8 +4037,9 @@ class PSpecData:
                     # get weights of the channels in the spectral window
                     fext0 = self.filter_extension[0]
                     window = slice(fext0, fext0 + self.spw_Nfreqs)
-                    wgts1 = self.w(key1)[window].T
-                    wgts2 = self.w(key2)[window].T
+                    # (UVData holds complex arrays, but weights are real)
+                    wgts1 = self.w(key1)[window].T.real.astype(float)
+                    wgts2 = self.w(key2)[window].T.real.astype(float)
 
                     # get avg of nsample across frequency axis, weighted by wgts
                     nsamp1 = np.sum(
-- 
2.43.0


From a9dc8e7ad6a945246f20ceabc53d2be04fe0d800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:13 +0000
Subject: [PATCH 063/144] fix: a filter extension switched off the symmetric
 taper of later windows too

---
 src/hera_pspec/pspecdata.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index c0e5785..37f0f97 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3549,7 +3549,6 @@ class PSpecData:
         """
         # set taper and data weighting
         self.set_taper(taper)
-        self.set_symmetric_taper(symmetric_taper)
         self.set_weighting(input_data_weight)
 
         # Validate the input data to make sure it's sensible
@@ -3695,6 +3694,7 @@ class PSpecData:
         time2 = []
         lst1 = []
         lst2 = []
+        spw_symmetric_taper = []
         dly_spws = []
         freq_spws = []
         dlys = []
@@ -3716,7 +3716,12 @@ class PSpecData:
             # set spectral range
             logger.info(f"\nSetting spectral range: {spw_ranges[i]}")
             self.set_spw(spw_ranges[i], ndlys=n_dlys[i])
+            # filter extensions switch the symmetric taper off, but only in
+            # their own spectral window
+            self.set_filter_extension((0, 0))
+            self.set_symmetric_taper(symmetric_taper)
             self.set_filter_extension(filter_extensions[i])
+            spw_symmetric_taper.append(self.symmetric_taper)
 
             # clear covariance cache
             self.clear_cache()
@@ -4149,7 +4154,7 @@ class PSpecData:
         # fill uvp object
         uvp = uvpspec.UVPSpec()
         # filter extensions may have switched the symmetric taper off
-        uvp.symmetric_taper = self.symmetric_taper
+        uvp.symmetric_taper = all(spw_symmetric_taper)
         # fill meta-data
         uvp.time_1_array = np.array(time1)
         uvp.time_2_array = np.array(time2)
-- 
2.43.0


From 32995cad70aa83e805ef9987efc898db659030bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 064/144] fix: weighting matrices outlived set_C and set_iC

---
 src/hera_pspec/pspecdata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 37f0f97..4dcbc1f 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -659,6 +659,8 @@ class PSpecData:
             while the ndarrays should have shape (spw_Nfreqs, spw_Nfreqs)
         """
         self.clear_cache(cov.keys())
+        # R matrices made of inverse covariances belong to the previous ones
+        self._R = {k: R for k, R in self._R.items() if k[2] != "iC"}
         for key in cov:
             self._C[key] = cov[key]
 
@@ -761,7 +763,7 @@ class PSpecData:
             if Ckey in known_cov.keys():
                 spw = slice(*self.get_spw(include_extension=include_extension))
                 covariance = known_cov[Ckey][spw, spw]
-                self.set_C({Ckey: covariance})
+                self._C[Ckey] = covariance
 
         # check cache
         if Ckey not in self._C:
@@ -1043,6 +1045,8 @@ class PSpecData:
             cache. Keys are tuples, following the same format as the input to
             self.iC().
         """
+        # R matrices made of inverse covariances belong to the previous ones
+        self._R = {k: R for k, R in self._R.items() if k[2] != "iC"}
         for k in d:
             self._iC[k] = d[k]
 
-- 
2.43.0


From 6a0c0e22d6585977582d6808f4a28f295a2b3226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:21 +0000
Subject: [PATCH 065/144] fix: filter extensions could reach beyond the band
 after a change of window

---
 src/hera_pspec/pspecdata.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 4dcbc1f..0536097 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -298,6 +298,7 @@ class PSpecData:
         self.spw_range = (0, self.Nfreqs)
         self.spw_Nfreqs = self.Nfreqs
         self.spw_Ndlys = self.spw_Nfreqs
+        self.filter_extension = (0, 0)
 
     def __str__(self):
         """
@@ -1268,12 +1269,11 @@ class PSpecData:
             warnings.warn(
                 "filter_extension[1] exceeds channels between spw_range[1] and Nfreqs. Defaulting to Nfreqs-spw_range[1]!"
             )
-        filter_extension[0] = np.min(
-            [self.spw_range[0], filter_extension[0]]
-        )  # clip extension to not extend beyond data range
-        filter_extension[1] = np.min(
-            [self.Nfreqs - self.spw_range[1], filter_extension[1]]
-        )  # clip extension to not extend beyond data range
+        # clip extension to not extend beyond data range
+        filter_extension[0] = int(min(self.spw_range[0], filter_extension[0]))
+        filter_extension[1] = int(
+            min(self.Nfreqs - self.spw_range[1], filter_extension[1])
+        )
         if tuple(filter_extension) != tuple(self.filter_extension):
             # cached matrices belong to the previous extension
             self.clear_cache()
@@ -1363,6 +1363,9 @@ class PSpecData:
         self.spw_range = spw_range
         self.spw_Nfreqs = spw_range[1] - spw_range[0]
         self.set_Ndlys(ndlys=ndlys)
+        if sum(self.filter_extension) > 0:
+            # the extension must fit around the new window
+            self.set_filter_extension(self.filter_extension)
 
     def set_Ndlys(self, ndlys=None):
         """
-- 
2.43.0


From c3e056ab73680709940b900838c8b2b18e808cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 066/144] fix: trim_dset_lsts left weights, standard deviations
 and Ntimes untrimmed

---
 src/hera_pspec/pspecdata.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 0536097..91595f2 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4519,7 +4519,17 @@ class PSpecData:
         for i, dset in enumerate(self.dsets):
             trim_inds = np.array([l not in common_lsts for l in lst_arrs[i]])
             if np.any(trim_inds):
-                self.dsets[i].select(times=dset.time_array[~trim_inds])
+                times = np.unique(dset.time_array[~trim_inds])
+                for other in (self.wgts[i], self.dsets_std[i]):
+                    # weights and standard deviations belong to the data
+                    if (
+                        other is not None
+                        and other is not dset
+                        and np.unique(other.time_array).size > times.size
+                    ):
+                        other.select(times=times)
+                self.dsets[i].select(times=times)
+        self.Ntimes = self.dsets[0].Ntimes
 
 
 def pspec_run(
-- 
2.43.0


From 4937abf9642518e133c241d9e902527aac064052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 067/144] fix: Jy_to_mK failed for datasets with different
 numbers of polarizations

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 91595f2..d83be8f 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4440,7 +4440,7 @@ class PSpecData:
             Beam object.
         """
         # get all unique polarizations of all the datasets
-        pols = set(np.ravel([dset.polarization_array for dset in self.dsets]))
+        pols = {p for dset in self.dsets for p in dset.polarization_array}
 
         # assign beam
         if beam is None:
-- 
2.43.0


From 8ee5546f514a3719d0b7e919ecea1798cfbcecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 068/144] fix: Jy_to_mK left the standard deviations of the
 data in Jy

---
 src/hera_pspec/pspecdata.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index d83be8f..7b57b09 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4479,6 +4479,13 @@ class PSpecData:
                 dset.data_array[:, :, j] *= factors[p][None, :]
             dset.vis_units = "mK"
 
+            # the standard deviations have the units of the data
+            std = self.dsets_std[i]
+            if std is not None and std is not dset and std.vis_units.upper() == "JY":
+                for j, p in enumerate(std.polarization_array):
+                    std.data_array[:, :, j] *= factors[p][None, :]
+                std.vis_units = "mK"
+
     def trim_dset_lsts(self, lst_tol=6):
         r"""
         Assuming all datasets in self.dsets are locked to the same LST grid
-- 
2.43.0


From 547059132f16ec5056671d6206f3c323392bb60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 069/144] fix: rephase_to_dset wrote to the polarization order
 of another dataset

---
 src/hera_pspec/pspecdata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 7b57b09..5a1a090 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4364,9 +4364,6 @@ class PSpecData:
                 lst_grid.append(l)
         lst_grid = np.array(lst_grid)
 
-        # get polarization list
-        pol_list = dsets[dset_index].polarization_array.tolist()
-
         # iterate over dsets
         for i, dset in enumerate(dsets):
             if len(dset.phase_center_catalog) > 1:
@@ -4397,6 +4394,9 @@ class PSpecData:
             # Get dlst array
             dlst = lst_grid - lsts
 
+            # get polarization list
+            pol_list = dset.polarization_array.tolist()
+
             # get telescope latitude
             lat = dset.telescope.location.lat.deg
 
-- 
2.43.0


From 9b8c3aa4450669e646dc3301b4756e68333dea3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:44 +0000
Subject: [PATCH 070/144] fix: cached covariances outlived in-place changes of
 the data

---
 src/hera_pspec/pspecdata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 5a1a090..761d8f9 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4350,6 +4350,8 @@ class PSpecData:
         # assign dsets
         if inplace:
             dsets = self.dsets
+            # cached covariances belong to the data before rephasing
+            self.clear_cache()
         else:
             dsets = copy.deepcopy(self.dsets)
 
@@ -4439,6 +4441,9 @@ class PSpecData:
         beam : PSpecBeam object
             Beam object.
         """
+        # cached covariances belong to the unconverted data
+        self.clear_cache()
+
         # get all unique polarizations of all the datasets
         pols = {p for dset in self.dsets for p in dset.polarization_array}
 
@@ -4500,6 +4505,9 @@ class PSpecData:
         lst_tol : float
             Decimal tolerance [radians] for comparing float-valued LST bins.
         """
+        # cached covariances belong to the untrimmed data
+        self.clear_cache()
+
         # ensure each dset has same dLST within tolerance / Ntimes
         dlst = np.median(np.diff(np.unique(self.dsets[0].lst_array)))
         for dset in self.dsets:
-- 
2.43.0


From fa602ab410534f634a1abc80419d2e4ac1e47340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:37 +0000
Subject: [PATCH 071/144] fix: computing a covariance model dropped the inverse
 covariance set by the user

---
 src/hera_pspec/pspecdata.py | 49 ++++++++++++++-----------------------
 1 file changed, 19 insertions(+), 30 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 761d8f9..0213ee6 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -768,42 +768,31 @@ class PSpecData:
 
         # check cache
         if Ckey not in self._C:
-            # calculate covariance model
+            # calculate covariance model (without set_C(), which would drop an
+            # inverse covariance set by the user)
             if model == "empirical":
-                self.set_C(
-                    {
-                        Ckey: utils.cov(
-                            self.x(key, include_extension=include_extension),
-                            self.w(key, include_extension=include_extension),
-                        )
-                    }
+                self._C[Ckey] = utils.cov(
+                    self.x(key, include_extension=include_extension),
+                    self.w(key, include_extension=include_extension),
                 )
             elif model == "dsets":
-                self.set_C(
-                    {
-                        Ckey: np.diag(
-                            np.abs(
-                                self.w(key, include_extension=include_extension)[
-                                    :, time_index
-                                ]
-                                * self.dx(key, include_extension=include_extension)[
-                                    :, time_index
-                                ]
-                            )
-                            ** 2.0
-                        )
-                    }
+                self._C[Ckey] = np.diag(
+                    np.abs(
+                        self.w(key, include_extension=include_extension)[
+                            :, time_index
+                        ]
+                        * self.dx(key, include_extension=include_extension)[
+                            :, time_index
+                        ]
+                    )
+                    ** 2.0
                 )
             elif model == "autos":
                 spw_range = self.get_spw(include_extension=include_extension)
-                self.set_C(
-                    {
-                        Ckey: np.diag(
-                            utils.variance_from_auto_correlations(
-                                self.dsets[dset], bl, spw_range, time_index
-                            )
-                        )
-                    }
+                self._C[Ckey] = np.diag(
+                    utils.variance_from_auto_correlations(
+                        self.dsets[dset], bl, spw_range, time_index
+                    )
                 )
             else:
                 raise ValueError(f"didn't recognize Ckey {Ckey}")
-- 
2.43.0


From e08c1d3bdc79baec0a1e14b631b426124fbca58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 072/144] fix: the covariance of exactly normalized bandpowers
 misplaced the beam factors

---
 src/hera_pspec/pspecdata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 0213ee6..e2511ba 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1858,7 +1858,9 @@ class PSpecData:
             del_tau = np.median(np.diff(self.delays())) * 1e-9
         for dly_idx in range(self.spw_Ndlys):
             if exact_norm:
-                QR2 = del_tau * integral_beam * np.dot(self.get_Q_alt(dly_idx), R2)
+                # the beam factors belong to Q (they don't commute with a dense R2)
+                Q = del_tau * integral_beam * self.get_Q_alt(dly_idx)
+                QR2 = np.dot(Q, R2)
             else:
                 QR2 = np.dot(self.get_Q_alt(dly_idx), R2)
             E_matrices[dly_idx] = np.dot(np.conj(R1).T, QR2)
-- 
2.43.0


From 9b9790d032b9b47b92e5df8bce58cb008d7f16c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 073/144] fix: analytic covariances repeated the first time's
 normalization matrix

---
 src/hera_pspec/pspecdata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index e2511ba..5385f49 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2178,7 +2178,11 @@ class PSpecData:
             # When model is 'foreground_dependent', since we are processing the outer products of visibilities from different times,
             # we are expected to have time-dependent inputs, thus check_uniform_input is always set to be False here.
             # Cross-covariances that are not zero or time-averaged may also vary.
+            # The normalization matrix has to be uniform as well.
             check_uniform_input = model in ["empirical", "dsets", "autos"] and all(
+                np.array_equal(m, M[0]) for m in M
+            )
+            check_uniform_input = check_uniform_input and all(
                 np.allclose(
                     self.C_model(key, model=model, known_cov=known_cov, time_index=0),
                     self.C_model(key, model=model, known_cov=known_cov, time_index=t),
-- 
2.43.0


From 8cffc7f4e880fb06d5838f34b9062971648a161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 074/144] fix: vanishing variances were stored as NaN standard
 deviations

---
 src/hera_pspec/pspecdata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 5385f49..19b5d2d 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3989,9 +3989,9 @@ class PSpecData:
                                 )
                             if store_cov_diag:
                                 stats = np.sqrt(
-                                    np.diagonal(np.real(cov_real), axis1=1, axis2=2)
+                                    np.diagonal(np.real(cov_real), axis1=1, axis2=2).clip(min=0)
                                 ) + 1.0j * np.sqrt(
-                                    np.diagonal(np.real(cov_imag), axis1=1, axis2=2)
+                                    np.diagonal(np.real(cov_imag), axis1=1, axis2=2).clip(min=0)
                                 )
                                 pol_stats_array_cov_model.extend(stats)
                         else:
@@ -4004,9 +4004,9 @@ class PSpecData:
                                 )
                             if store_cov_diag:
                                 stats = np.sqrt(
-                                    np.diagonal(np.real(cov_q_real), axis1=1, axis2=2)
+                                    np.diagonal(np.real(cov_q_real), axis1=1, axis2=2).clip(min=0)
                                 ) + 1.0j * np.sqrt(
-                                    np.diagonal(np.real(cov_q_imag), axis1=1, axis2=2)
+                                    np.diagonal(np.real(cov_q_imag), axis1=1, axis2=2).clip(min=0)
                                 )
                                 pol_stats_array_cov_model.extend(stats)
 
-- 
2.43.0


From bdfc75a19ac97a0b4fb6ec76071905966c3fdbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 075/144] fix: uvp_noise_error with a precomputed P_N needed
 the system temperatures

---
 src/hera_pspec/utils.py | 65 +++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 0338561..ba49c8c 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1565,22 +1565,24 @@ def uvp_noise_error(
         freqs = np.squeeze(auto_Tsys.freq_array)
     # calculate scalars for spws and polpairs.
     scalar = {}
-    for spw in uvp.spw_array:
-        for polpair in uvp.polpair_array:
-            scalar[(spw, polpair)] = uvp.compute_scalar(
-                spw,
-                polpair,
-                num_steps=num_steps_scalar,
-                little_h=little_h,
-                noise_scalar=True,
-            )
+    if precomp_P_N is None:
+        for spw in uvp.spw_array:
+            for polpair in uvp.polpair_array:
+                scalar[(spw, polpair)] = uvp.compute_scalar(
+                    spw,
+                    polpair,
+                    num_steps=num_steps_scalar,
+                    little_h=little_h,
+                    noise_scalar=True,
+                )
     # iterate over spectral window
     for spw in uvp.spw_array:
         # get spw properties
         spw_range = uvp.get_spw_ranges(spw)[0]
-        spw_start = np.argmin(np.abs(np.squeeze(auto_Tsys.freq_array) - spw_range[0]))
-        spw_stop = spw_start + spw_range[2]
-        taper = uvt.dspec.gen_window(uvp.taper, spw_range[2])
+        if precomp_P_N is None:
+            spw_start = np.argmin(np.abs(freqs - spw_range[0]))
+            spw_stop = spw_start + spw_range[2]
+            taper = uvt.dspec.gen_window(uvp.taper, spw_range[2])
         # iterate over blpairs
         for blp in uvp.get_blpairs():
             blp_int = uvp.antnums_to_blpair(blp)
@@ -1589,25 +1591,26 @@ def uvp_noise_error(
             time_1_selection = uvp.time_1_array[blp_inds]
             time_2_selection = uvp.time_2_array[blp_inds]
 
-            # get time indices in data
-            times_blp_1 = auto_Tsys.time_array[
-                auto_Tsys.antpair2ind(blp[0][0], blp[0][0])
-            ]
-            times_blp_2 = auto_Tsys.time_array[
-                auto_Tsys.antpair2ind(blp[1][0], blp[1][0])
-            ]
-
-            # This time matching is at roughly 1 second tolerance.
-            # Interleaves with < 1 second cadence could run into trouble.
-            # I don't anticipate this being a problem with HERA's 10 second interleave time.
-            tinds1 = [
-                np.where(np.isclose(times_blp_1, t, atol=1e-5, rtol=0))[0][0]
-                for t in time_1_selection
-            ]
-            tinds2 = [
-                np.where(np.isclose(times_blp_2, t, atol=1e-5, rtol=0))[0][0]
-                for t in time_2_selection
-            ]
+            if precomp_P_N is None:
+                # get time indices in data
+                times_blp_1 = auto_Tsys.time_array[
+                    auto_Tsys.antpair2ind(blp[0][0], blp[0][0])
+                ]
+                times_blp_2 = auto_Tsys.time_array[
+                    auto_Tsys.antpair2ind(blp[1][0], blp[1][0])
+                ]
+
+                # This time matching is at roughly 1 second tolerance.
+                # Interleaves with < 1 second cadence could run into trouble.
+                # I don't anticipate this being a problem with HERA's 10 second interleave time.
+                tinds1 = [
+                    np.where(np.isclose(times_blp_1, t, atol=1e-5, rtol=0))[0][0]
+                    for t in time_1_selection
+                ]
+                tinds2 = [
+                    np.where(np.isclose(times_blp_2, t, atol=1e-5, rtol=0))[0][0]
+                    for t in time_2_selection
+                ]
 
             # iterate over polarization
             for polpair in uvp.polpair_array:
-- 
2.43.0


From 25b7bb740273e67a658fe907b35ecb8e27ba68f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 076/144] fix: uvp_noise_error looked up LSTs with another
 array's time indices

---
 src/hera_pspec/utils.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index ba49c8c..231b7a1 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1560,8 +1560,6 @@ def uvp_noise_error(
 
     # get metadata if needed
     if precomp_P_N is None:
-        lst_indices = np.unique(auto_Tsys.lst_array, return_index=True)[1]
-        lsts = auto_Tsys.lst_array[sorted(lst_indices)]
         freqs = np.squeeze(auto_Tsys.freq_array)
     # calculate scalars for spws and polpairs.
     scalar = {}
@@ -1599,6 +1597,12 @@ def uvp_noise_error(
                 times_blp_2 = auto_Tsys.time_array[
                     auto_Tsys.antpair2ind(blp[1][0], blp[1][0])
                 ]
+                lsts_blp_1 = auto_Tsys.lst_array[
+                    auto_Tsys.antpair2ind(blp[0][0], blp[0][0])
+                ]
+                lsts_blp_2 = auto_Tsys.lst_array[
+                    auto_Tsys.antpair2ind(blp[1][0], blp[1][0])
+                ]
 
                 # This time matching is at roughly 1 second tolerance.
                 # Interleaves with < 1 second cadence could run into trouble.
@@ -1677,14 +1681,14 @@ def uvp_noise_error(
                             np.count_nonzero(~Tflag2) > 1
                         ):
                             Tsys1 = interp1d(
-                                lsts[tinds1][~Tflag1],
+                                lsts_blp_1[tinds1][~Tflag1],
                                 Tsys1[~Tflag1],
                                 kind="nearest",
                                 bounds_error=False,
                                 fill_value="extrapolate",
                             )(uvp.lst_1_array[blp_inds])
                             Tsys2 = interp1d(
-                                lsts[tinds2][~Tflag2],
+                                lsts_blp_2[tinds2][~Tflag2],
                                 Tsys2[~Tflag2],
                                 kind="nearest",
                                 bounds_error=False,
-- 
2.43.0


From 37e061b53383d88677da6ec79128558b13df5f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 077/144] fix: a single unflagged time took its Tsys from a
 flagged one

---
 src/hera_pspec/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 231b7a1..d493d01 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1696,7 +1696,10 @@ def uvp_noise_error(
                             )(uvp.lst_2_array[blp_inds])
                             Tsys = (Tsys1 * Tsys2) ** 0.5
                         else:
-                            Tsys = (Tsys1[0] * Tsys2[0]) ** 0.5
+                            # too few times to interpolate: use the first unflagged ones
+                            Tsys = (
+                                Tsys1[np.argmin(Tflag1)] * Tsys2[np.argmin(Tflag2)]
+                            ) ** 0.5
 
                     # calculate P_N
                     P_N = uvp.generate_noise_spectra(
-- 
2.43.0


From d2285dcf58c25e1e603642da57f8c559c44e90a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 078/144] fix: uvd_to_Tsys mixed up polarizations stored in
 another order

---
 src/hera_pspec/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index d493d01..31b6d90 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1490,7 +1490,7 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
         tinds = uvd.antpair2ind(bl)
         if pol.upper() in STOKPOLS:
             pol = "pI"
-        pind = pols.index(pol)
+        pind = uvd.get_pols().index(pol)
         uvd.data_array[tinds, ..., pind] *= J2K[pol]
 
     if Tsys_outfile is not None:
-- 
2.43.0


From e023d121fc2295938634de1981d9b2750d383ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 079/144] fix: uvd_to_Tsys read the beam of a UVPSpec in sorted
 polarization order

---
 src/hera_pspec/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 31b6d90..57f8753 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1457,7 +1457,7 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
     uvd.select(bls=autobls, polarizations=pols)
 
     # construct beam
-    from hera_pspec import pspecbeam, uvpspec
+    from hera_pspec import pspecbeam, uvpspec, uvpspec_utils
 
     if isinstance(beam, str):
         beam = pspecbeam.PSpecBeamUV(beam)
@@ -1469,7 +1469,10 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
             # use first pol in each polpair
             uvp_pols = [
                 pp[0] if pp[0].upper() not in STOKPOLS else "pI"
-                for pp in uvp.get_polpairs()
+                for pp in (
+                    uvpspec_utils.polpair_int2tuple(ppint, pol_strings=True)
+                    for ppint in uvp.polpair_array
+                )
             ]
             Op = {uvp_pol: uvp.OmegaP[:, ii] for ii, uvp_pol in enumerate(uvp_pols)}
             Opp = {uvp_pol: uvp.OmegaPP[:, ii] for ii, uvp_pol in enumerate(uvp_pols)}
-- 
2.43.0


From 614009f77e57f00ead8b03294d5d4e617c762d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 080/144] fix: generate_noise_spectra refused a dictionary of
 system temperatures per baseline-pair

---
 src/hera_pspec/uvpspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 2b75d52..afc4bfb 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2673,7 +2673,7 @@ class UVPSpec:
                 # Get noise power spectrum
                 pn = noise.calc_P_N(
                     scalar,
-                    Tsys[blp][j],
+                    Tsys[blp] if np.ndim(Tsys[blp]) == 0 else Tsys[blp][j],
                     t_int,
                     k=k,
                     Nincoherent=n_samp,
-- 
2.43.0


From 8e3eb4d20be3d8829543666f1422b4d6268a5f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:40 +0000
Subject: [PATCH 081/144] fix: noise error bars could not be computed for
 baseline-pairs with differing numbers of times

---
 src/hera_pspec/uvpspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index afc4bfb..be211e1 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2654,7 +2654,7 @@ class UVPSpec:
             inds = self.blpair_to_indices(blp)
             assert (
                 isinstance(Tsys[blp], (float, int))
-                or Tsys[blp].shape[0] == self.Ntpairs
+                or Tsys[blp].shape[0] in (self.Ntpairs, len(inds))
             ), "Tsys must be a float or an ndarray with shape[0] == Ntpairs"
             P_blp = []
 
-- 
2.43.0


From 63fcc0cc765e69cabf8bc9a1b070551e94f33822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:29 +0000
Subject: [PATCH 082/144] fix: uvd_to_Tsys could not use the beam of a UVPSpec
 for data with an x orientation

---
 src/hera_pspec/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 57f8753..8dd8448 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1487,7 +1487,11 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
         )
 
     # convert autos in Jy to Tsys in Kelvin
-    J2K = {pol: beam.Jy_to_mK(uvd.freq_array, pol=pol) / 1e3 for pol in pols}
+    # (the beam knows no x orientation: use pol names in the X-Y basis)
+    J2K = {
+        pol: beam.Jy_to_mK(uvd.freq_array, pol=uvutils.polnum2str(polnum)) / 1e3
+        for pol, polnum in zip(uvd.get_pols(), uvd.polarization_array)
+    }
     for blpol in uvd.get_antpairpols():
         bl, pol = blpol[:2], blpol[2]
         tinds = uvd.antpair2ind(bl)
-- 
2.43.0


From 008225ca230e1bfdcc03bae7814f06fb9574edd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:43 +0000
Subject: [PATCH 083/144] fix: PSpecBeamFromArray renamed the keys of the
 caller's dictionaries

---
 src/hera_pspec/pspecbeam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hera_pspec/pspecbeam.py b/src/hera_pspec/pspecbeam.py
index 2d002b5..45b9029 100644
--- a/src/hera_pspec/pspecbeam.py
+++ b/src/hera_pspec/pspecbeam.py
@@ -666,6 +666,9 @@ class PSpecBeamFromArray(PSpecBeamBase):
         if not isinstance(OmegaP, dict) or not isinstance(OmegaPP, dict):
             raise TypeError("OmegaP and OmegaPP must both be either dicts or arrays.")
 
+        # Keys are renamed below: leave the user's dicts alone
+        OmegaP, OmegaPP = dict(OmegaP), dict(OmegaPP)
+
         # Check for disallowed polarizations
         for key in list(OmegaP.keys()):
             # turn into pol integer if a pol string
-- 
2.43.0


From 3790a51d1e53307ac9022fb3b12c8f87a8da86b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:20 +0000
Subject: [PATCH 084/144] fix: construct_pstokes changed the pol_convention of
 its inputs

---
 src/hera_pspec/pstokes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index b3b91ac..46e1c19 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -113,15 +113,17 @@ def _combine_pol(uvd1, uvd2, pol1, pol2, pstokes="pI", x_orientation=None):
     assert isinstance(uvd1, pyuvdata.UVData), "uvd1 must be a pyuvdata.UVData instance"
     assert isinstance(uvd2, pyuvdata.UVData), "uvd2 must be a pyuvdata.UVData instance"
 
+    pol_conventions = []
     for i, uvd in enumerate([uvd1, uvd2]):
         pol_convention = getattr(uvd, "pol_convention", None)
         if pol_convention is None:
             warnings.warn(
                 f'No polarization convention in uvd{i + 1}. Considering it to be "avg".'
             )
-            setattr(uvd, "pol_convention", "avg")
+            pol_convention = "avg"
+        pol_conventions.append(pol_convention)
 
-    if uvd1.pol_convention != uvd2.pol_convention:
+    if pol_conventions[0] != pol_conventions[1]:
         raise ValueError("pol_convention of uvd1 and uvd2 are different.")
 
     # combine arrays according to polarization convention
@@ -129,7 +131,7 @@ def _combine_pol(uvd1, uvd2, pol1, pol2, pstokes="pI", x_orientation=None):
         pol1,
         pol2,
         pstokes,
-        uvd1.pol_convention,
+        pol_conventions[0],
         [uvd1.data_array, uvd2.data_array],
         [uvd1.flag_array, uvd2.flag_array],
         [uvd1.nsample_array, uvd2.nsample_array],
@@ -145,6 +147,7 @@ def _combine_pol(uvd1, uvd2, pol1, pol2, pstokes="pI", x_orientation=None):
     uvdS.flag_array = combined_flags  # flag array
     uvdS.polarization_array = np.array([pstokes], dtype=int)  # polarization number
     uvdS.nsample_array = combined_nsamples
+    uvdS.pol_convention = pol_conventions[0]
 
     uvdS.history = (
         f"Merged into pseudo-stokes vis with hera_pspec version {__version__}\n"
-- 
2.43.0


From d4f60ca97df287b4e2a36475944f40fc87537a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:20 +0000
Subject: [PATCH 085/144] fix: construct_pstokes could not form a pseudo-Stokes
 name from miriad paths

---
 src/hera_pspec/pstokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index 46e1c19..35248fc 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -411,7 +411,7 @@ def construct_pstokes(
     # convert pstokes to integer if fed as a string
     if isinstance(pstokes, str):
         pstokes = pyuvdata.utils.polstr2num(
-            pstokes, x_orientation=dset1.telescope.get_x_orientation_from_feeds()
+            pstokes, x_orientation=uvd1.telescope.get_x_orientation_from_feeds()
         )
 
     # check if dset1 and dset2 habe the same spectral window
-- 
2.43.0


From 79fd7c611dbdbb9edfdd5a76bae8a51f3b363ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:20 +0000
Subject: [PATCH 086/144] fix: construct_pstokes could not combine datasets
 with several spectral windows

---
 src/hera_pspec/pstokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index 35248fc..337eb77 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -417,7 +417,7 @@ def construct_pstokes(
     # check if dset1 and dset2 habe the same spectral window
     spw1 = uvd1.spw_array
     spw2 = uvd2.spw_array
-    assert spw1 == spw2, "dset1 and dset2 must have the same spectral windows."
+    assert np.array_equal(spw1, spw2), "dset1 and dset2 must have the same spectral windows."
 
     # check if dset1 and dset2 have the same frequencies
     freqs1 = uvd1.freq_array
-- 
2.43.0


From 086d6da4feb0098721eab76d99433e7c63597d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:20 +0000
Subject: [PATCH 087/144] fix: filter_dset_on_stokes_pol did not check the type
 of its datasets

---
 src/hera_pspec/pstokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index 337eb77..f5e7bc5 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -495,7 +495,7 @@ def filter_dset_on_stokes_pol(dsets, pstokes):
     """
     # type check
     assert isinstance(dsets, list), "dsets must be fed as a list of UVData objects"
-    assert np.all(isinstance(d, pyuvdata.UVData) for d in dsets), (
+    assert all(isinstance(d, pyuvdata.UVData) for d in dsets), (
         "dsets must be fed as a list of UVData objects"
     )
 
-- 
2.43.0


From 16b1fb87c48a315aa2dd68b8d00d3e5dd76d8ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:20 +0000
Subject: [PATCH 088/144] fix: generate_pstokes_run failed with its default
 pseudo-Stokes parameter

---
 src/hera_pspec/pstokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index f5e7bc5..8150881 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -542,7 +542,7 @@ def generate_pstokes_argparser():
         type=str,
         help="list of pStokes you wish to calculate. Default is ['pI']",
         nargs="+",
-        default="pI",
+        default=["pI"],
     )
     a.add_argument(
         "--outputdata",
-- 
2.43.0


From 24338b78913659b45261bba19a12474f4a1b0364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 089/144] fix: get_bl_lens_angs gave East-West baselines an
 angle of 0 or 180 depending on their direction

---
 src/hera_pspec/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 8dd8448..9a6f843 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1218,7 +1218,10 @@ def get_bl_lens_angs(blvecs, bl_error_tol=1.0):
     angs = np.array([(a + 180) % 360 if a < 0 else a for a in angs])
 
     # Find baseline groups with ang ~ 180 deg that have y-vec within bl_error and set to ang = 0 deg.
-    flip = (blvecs[:, 1] > -bl_error_tol) & (blvecs[:, 1] < 0) & (blvecs[:, 0] > 0)
+    flip = (np.abs(blvecs[:, 1]) < bl_error_tol) & (
+        ((blvecs[:, 1] < 0) & (blvecs[:, 0] > 0))
+        | ((blvecs[:, 1] >= 0) & (blvecs[:, 0] < 0))
+    )
     angs[flip] = 0
 
     return lens, angs
-- 
2.43.0


From d4e2b9d6534821c80f3a422fe97836396d16075d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 090/144] fix: get_reds with autos_only returned
 cross-correlations unless add_autos was set

---
 src/hera_pspec/utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 9a6f843..cbf905e 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1337,16 +1337,16 @@ def get_reds(
         _angs.append(angs[i])
     reds, lens, angs = _reds, _lens, _angs
 
+    # drop cross-correlations if asked
+    if autos_only:
+        reds, lens, angs = [], [], []
+
     # put in autocorrs
     if add_autos:
         ants = antpos_dict.keys()
         reds = [list(zip(ants, ants))] + reds
         lens = np.insert(lens, 0, 0)
         angs = np.insert(angs, 0, 0)
-        if autos_only:
-            reds = reds[:1]
-            lens = lens[:1]
-            angs = angs[:1]
 
     # filter based on xants
     if xants is not None:
-- 
2.43.0


From 316e6a0e2468a1ca5d109401b8b8d2f413d67ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 091/144] fix: get_blvec_reds did not order baselines longer
 than a kilometre by length

---
 src/hera_pspec/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index cbf905e..be3bc3b 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1077,8 +1077,8 @@ def get_blvec_reds(blvecs, bl_error_tol=1.0, match_bl_lens=False):
             red_bl_ang.append(bl_ang)
             red_bl_tag.append(bl_tag)
 
-    # order based on tag
-    order = np.argsort(red_bl_tag)
+    # order based on the (rounded) length and angle in the tag
+    order = np.lexsort((np.round(red_bl_ang), np.round(red_bl_len)))
     red_bl_grp = [red_bl_grp[i] for i in order]
     red_bl_len = [red_bl_len[i] for i in order]
     red_bl_ang = [red_bl_ang[i] for i in order]
-- 
2.43.0


From 88fc0e6b70882a7b12b495eeaae395b9c2b8e042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:50 +0000
Subject: [PATCH 092/144] fix: _get_red_bls separated baselines with angles
 just above 0 and just below 180 degrees

---
 src/hera_pspec/uvpspec_utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index ebffc94..4a02631 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -1282,17 +1282,18 @@ def _get_red_bls(uvp, bl_len_tol=1.0, bl_ang_tol=1.0):
     while len(idxs) > 0 and nloops < max_loops:
         nloops += 1
 
-        # Match bls within some tolerance in length and angle
+        # Match bls within some tolerance in length and angle (modulo 180 deg)
+        ang_diffs = (angs - angs[0] + 90) % 180 - 90
         matches = np.where(
             np.logical_and(
-                np.abs(lens - lens[0]) < bl_len_tol, np.abs(angs - angs[0]) < bl_ang_tol
+                np.abs(lens - lens[0]) < bl_len_tol, np.abs(ang_diffs) < bl_ang_tol
             )
         )
 
         # Save info about this group
         grp_bls.append(uvp.bl_array[idxs[matches]])
         grp_len.append(np.mean(lens[matches]))
-        grp_ang.append(np.mean(angs[matches]))
+        grp_ang.append((angs[0] + np.mean(ang_diffs[matches])) % 180)
 
         # Remove bls that were matched so we don't try to group them again
         idxs = np.delete(idxs, matches)
-- 
2.43.0


From b06255d6e61c5eaea49d26897d5618e7f2116d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:11 +0000
Subject: [PATCH 093/144] fix: config_pspec_blpairs matched exclude_patterns
 against templates and kept groups without files

---
 src/hera_pspec/utils.py | 60 +++++++++++++----------------------------
 1 file changed, 19 insertions(+), 41 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index be3bc3b..64c2d57 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -885,7 +885,7 @@ def config_pspec_blpairs(
     pols = sorted(set([item for sublist in pol_pairs for item in sublist]))
     groups = sorted(set([item for sublist in group_pairs for item in sublist]))
 
-    # parse wildcards in uv_templates to get wildcard-unique filenames
+    # parse wildcards in uv_templates to get filenames with pol / group selection
     unique_files = []
     pol_grps = []
     for template in uv_templates:
@@ -893,52 +893,30 @@ def config_pspec_blpairs(
             for group in groups:
                 # parse wildcards with pol / group selection
                 files = glob.glob(template.format(pol=pol, group=group))
-                # if any files were parsed, add to pol_grps
+                # exclude files matching user-specified patterns
+                for pattern in exclude_patterns or []:
+                    for f in [f for f in files if pattern in f]:
+                        if verbose:
+                            print(
+                                "File matches pattern '%s' and will be excluded: %s"
+                                % (pattern, f)
+                            )
+                        files.remove(f)
+                # if any files remain, add to pol_grps
                 if len(files) > 0:
                     pol_grps.append((pol, group))
-                # insert into unique_files with {pol} and {group} re-inserted
-                for _file in files:
-                    _unique_file = _file.replace(f".{pol}.", ".{pol}.").replace(
-                        f".{group}.", ".{group}."
-                    )
-                    if _unique_file not in unique_files:
-                        unique_files.append(_unique_file)
+                unique_files.extend(f for f in files if f not in unique_files)
     unique_files = sorted(unique_files)
 
-    # Exclude user-specified patterns
-    if exclude_patterns is not None:
-        to_exclude = []
-
-        # Loop over files and patterns
-        for f in unique_files:
-            for pattern in exclude_patterns:
-                # Add to list of files to be excluded
-                if pattern in f:
-                    if verbose:
-                        print(
-                            "File matches pattern '%s' and will be excluded: %s"
-                            % (pattern, f)
-                        )
-                    to_exclude.append(f)
-                    continue
-
-        # Exclude files that matched a pattern
-        for f in to_exclude:
-            try:
-                unique_files.remove(f)
-            except:
-                pass
-
-        # Test for empty list and fail if found
-        if len(unique_files) == 0:
-            if verbose:
-                print("config_pspec_blpairs: All files were filtered out!")
-            return []
+    # Test for empty list and fail if found
+    if exclude_patterns is not None and len(unique_files) == 0:
+        if verbose:
+            print("config_pspec_blpairs: All files were filtered out!")
+        return []
 
-    # use a single file from unique_files and a single pol-group combination to get antenna positions
-    _file = unique_files[0].format(pol=pol_grps[0][0], group=pol_grps[0][1])
+    # use a single file from unique_files to get antenna positions
     uvd = UVData()
-    uvd.read(_file, read_data=False, file_type=file_type)
+    uvd.read(unique_files[0], read_data=False, file_type=file_type)
 
     # get baseline pairs
     (_bls1, _bls2, _, _, _) = calc_blpair_reds(
-- 
2.43.0


From 9299c0072b61cdabb8f5c8fe45e2ffd327b8c11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 094/144] fix: get_reds counted the height of a baseline in its
 East-West extent

---
 src/hera_pspec/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 64c2d57..537fadc 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1308,7 +1308,7 @@ def get_reds(
             continue
         if a < bl_deg_range[0] or a > bl_deg_range[1]:
             continue
-        if np.abs(l * np.cos(a * np.pi / 180)) < min_EW_cut:
+        if np.abs(vecs[i][0]) < min_EW_cut:
             continue
         _reds.append(reds[i])
         _lens.append(lens[i])
-- 
2.43.0


From ee7310c1e05ec93c5e6582c562968e6fd859f486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 095/144] fix: circular_average could return 2 pi for angles
 averaging to zero

---
 src/hera_pspec/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 537fadc..471982b 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -60,7 +60,8 @@ def circular_average(angles, axis=0):
     # Take mean of complex vectors
     z_mean = np.mean(z, axis=axis)
     # Convert back to angle and wrap to [0, 2*pi)
-    return np.angle(z_mean) % (2 * np.pi)
+    # (the remainder of a tiny negative angle rounds up to 2*pi, hence the second modulo)
+    return np.angle(z_mean) % (2 * np.pi) % (2 * np.pi)
 
 
 def cov(d1, w1, d2=None, w2=None, conj_1=False, conj_2=True):
-- 
2.43.0


From d440b04a80894dc1bef5f9933a9bc8fa2d218f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 096/144] fix: job_monitor re-ran failed jobs with their
 indices instead of their items

---
 src/hera_pspec/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 471982b..177c7b5 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1110,7 +1110,8 @@ def job_monitor(
     t_start = time.time()
 
     # run function over jobs
-    exit_codes = np.array(list(M(run_func, iterator)))
+    jobs = list(iterator)
+    exit_codes = np.array(list(M(run_func, jobs)))
     tnow = datetime.now(UTC)
 
     # check for len-0
@@ -1138,7 +1139,7 @@ def job_monitor(
                 # break after certain number of tries
                 break
             # re-run function over jobs that failed
-            exit_codes = np.array(list(M(run_func, failures)))
+            exit_codes = np.array(list(M(run_func, [jobs[i] for i in failures])))
             # update counter
             counter += 1
             # update failures
-- 
2.43.0


From 5dc446276634fe0bad99bf42612a9e24ef1a7883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 097/144] fix: load_config left 'None' entries and lists of
 lists inside lists unconverted

---
 src/hera_pspec/utils.py | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 177c7b5..da4846c 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -754,17 +754,14 @@ def load_config(config_file):
     # define recursive replace function
     def replace(d):
         if isinstance(d, dict):
-            for k in d.keys():
-                # 'None' and '' turn into None
-                if d[k] == "None":
-                    d[k] = None
-                # list of lists turn into lists of tuples
-                if isinstance(d[k], list) and np.all(
-                    [isinstance(i, list) for i in d[k]]
-                ):
-                    d[k] = [tuple(i) for i in d[k]]
-                elif isinstance(d[k], dict):
-                    replace(d[k])
+            return {k: replace(d[k]) for k in d.keys()}
+        if isinstance(d, list):
+            # list of lists turn into lists of tuples
+            is_nested = all(isinstance(i, list) for i in d)
+            d = [replace(i) for i in d]
+            return [tuple(i) for i in d] if is_nested else d
+        # 'None' turns into None
+        return None if isinstance(d, str) and d == "None" else d
 
     # Open and read config file
     with open(config_file) as cfile:
@@ -774,9 +771,7 @@ def load_config(config_file):
             raise (exc)
 
     # Replace entries
-    replace(cfg)
-
-    return cfg
+    return replace(cfg)
 
 
 def flatten(nested_list):
-- 
2.43.0


From 8957fb8ad3068827d132cb4bb8a871f70f696981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:37 +0000
Subject: [PATCH 098/144] fix: uvd_time_difference compared seconds with days
 and failed for two times

---
 src/hera_pspec/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index da4846c..c80896d 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1379,12 +1379,13 @@ def uvd_time_difference(uvd, time_diff):
     -------
     uvd_td : UVData object
     """
-    min_time_diff = np.mean(
+    # integrations are spaced in days
+    min_time_diff = 86400 * np.mean(
         np.unique(uvd.time_array)[1:] - np.unique(uvd.time_array)[0:-1]
     )
     index_diff = int(time_diff / min_time_diff) + 1
     if index_diff > len(np.unique(uvd.time_array)) - 2:
-        index_diff = len(np.unique(uvd.time_array)) - 2
+        index_diff = max(len(np.unique(uvd.time_array)) - 2, 1)
 
     uvd0 = uvd.select(times=np.unique(uvd.time_array)[0:-1:index_diff], inplace=False)
     uvd1 = uvd.select(times=np.unique(uvd.time_array)[1::index_diff], inplace=False)
-- 
2.43.0


From b4811c3c46d25f137e960f71e4708fc1536bc792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 099/144] fix: uvd_time_difference subtracted different
 baselines when their order changes between times

---
 src/hera_pspec/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index c80896d..fbd4982 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1389,9 +1389,11 @@ def uvd_time_difference(uvd, time_diff):
 
     uvd0 = uvd.select(times=np.unique(uvd.time_array)[0:-1:index_diff], inplace=False)
     uvd1 = uvd.select(times=np.unique(uvd.time_array)[1::index_diff], inplace=False)
+    # match baselines, whatever order they are stored in at each time
+    order0 = np.lexsort((uvd0.baseline_array, uvd0.time_array))
+    order1 = np.lexsort((uvd1.baseline_array, uvd1.time_array))
     data0 = uvd0.data_array
-    data1 = uvd1.data_array
-    data0 -= data1
+    data0[order0] -= uvd1.data_array[order1]
     uvd0.data_array = data0 / np.sqrt(2)
 
     return uvd0
-- 
2.43.0


From 7c2ec0d5c62b7a7cd819b34925b7b82cbe1b20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:06 +0000
Subject: [PATCH 100/144] fix: select_common took windows with different delays
 for the same window

---
 src/hera_pspec/uvpspec_utils.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 4a02631..26f0122 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -8,6 +8,15 @@ from pyuvdata.utils import polnum2str, polstr2num
 from . import utils
 
 
+def _spw_id(uvp, spw):
+    """
+    The frequency range and the delays of a spectral window, which identify it
+    in other UVPSpec objects.
+    """
+    dlys = uvp.dly_array[uvp.spw_dly_array == spw]
+    return uvp.get_spw_ranges(spws=[spw])[0] + tuple(dlys)
+
+
 def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
     """
     Subtract uvp2.data_array from uvp1.data_array. Subtract matching
@@ -49,10 +58,10 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
     )
 
     # get metadata
-    spws1 = [spw for spw in uvp1.get_spw_ranges()]
+    spws1 = [_spw_id(uvp1, spw) for spw in range(uvp1.Nspws)]
     polpairs1 = uvp1.polpair_array.tolist()
     blps1 = sorted(set(uvp1.blpair_array))
-    spws2 = [spw for spw in uvp2.get_spw_ranges()]
+    spws2 = [_spw_id(uvp2, spw) for spw in range(uvp2.Nspws)]
 
     # iterate over spws
     for i, spw in enumerate(spws1):
@@ -323,10 +332,12 @@ def select_common(
     # Get common spectral windows (the entire window must match)
     # Each row of common_spws is a list of that spw's index in each UVPSpec
     if spws:
-        common_spws = uvp_list[0].get_spw_ranges()
-        has_spws = [
-            [x in uvp.get_spw_ranges() for x in common_spws] for uvp in uvp_list
+        # a window is identified by its channels and its delays
+        all_spws = [
+            [_spw_id(uvp, spw) for spw in range(uvp.Nspws)] for uvp in uvp_list
         ]
+        common_spws = all_spws[0]
+        has_spws = [[x in uvp_spws for x in common_spws] for uvp_spws in all_spws]
         common_spws = [
             common_spws[i] for i, f in enumerate(np.all(has_spws, axis=0)) if f
         ]
@@ -367,7 +378,7 @@ def select_common(
         if polpairs:
             _polpairs = common_polpairs
         if spws:
-            _spws = [uvp.get_spw_ranges().index(j) for j in common_spws]
+            _spws = [all_spws[i].index(j) for j in common_spws]
 
         _uvp = uvp.select(
             spws=_spws,
-- 
2.43.0


From 3a7b17031a622cfe721d06c5d56d8ee2d9cf2706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:16 +0000
Subject: [PATCH 101/144] fix: subtract_uvp subtracted different times from
 each other and failed for folded spectra

---
 src/hera_pspec/uvpspec_utils.py | 135 +++++++++++++++++++++-----------
 1 file changed, 91 insertions(+), 44 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 26f0122..f3a5cd9 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -17,6 +17,44 @@ def _spw_id(uvp, spw):
     return uvp.get_spw_ranges(spws=[spw])[0] + tuple(dlys)
 
 
+def _inverse_quadrature(a, b):
+    """
+    Combine two arrays inversely in quadrature. The result is zero wherever one
+    of them is.
+    """
+    with np.errstate(divide="ignore"):
+        return np.sqrt(1.0 / (1.0 / a**2 + 1.0 / b**2))
+
+
+def _select_common_blpair_lsts(uvp_list):
+    """
+    Keep only the (blpair, lst) keys that all UVPSpec objects have in common.
+    The input objects are not changed.
+    """
+    from .uvpspec import combine_uvpspec
+
+    keys = [list(zip(uvp.blpair_array, uvp.lst_avg_array)) for uvp in uvp_list]
+    common = set(keys[0]).intersection(*keys[1:])
+    if all(common.issuperset(k) for k in keys):
+        return uvp_list
+    if len(common) == 0:
+        raise ValueError("No baseline-pair-lsts were found that exist in all spectra.")
+    lsts = {}
+    for blp, lst in sorted(common):
+        lsts.setdefault(blp, []).append(lst)
+
+    return [
+        combine_uvpspec(
+            [
+                uvp.select(blpairs=[blp], lsts=lsts[blp], inplace=False)
+                for blp in lsts
+            ],
+            verbose=False,
+        )
+        for uvp in uvp_list
+    ]
+
+
 def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
     """
     Subtract uvp2.data_array from uvp1.data_array. Subtract matching
@@ -57,11 +95,26 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
         verbose=verbose,
     )
 
+    # baseline-pairs may not all be observed at the same lsts
+    uvp1, uvp2 = _select_common_blpair_lsts([uvp1, uvp2])
+
     # get metadata
     spws1 = [_spw_id(uvp1, spw) for spw in range(uvp1.Nspws)]
     polpairs1 = uvp1.polpair_array.tolist()
     blps1 = sorted(set(uvp1.blpair_array))
     spws2 = [_spw_id(uvp2, spw) for spw in range(uvp2.Nspws)]
+    polpairs2 = uvp2.polpair_array.tolist()
+
+    # get the rows of each blpair in order of lst, because the two objects may
+    # store them in different orders
+    rows = {}
+    for blp in blps1:
+        inds = []
+        for uvp in (uvp1, uvp2):
+            blp_inds = uvp.blpair_to_indices(blp)
+            order = np.argsort(uvp.lst_avg_array[blp_inds], kind="stable")
+            inds.append(blp_inds[order])
+        rows[blp] = inds
 
     # iterate over spws
     for i, spw in enumerate(spws1):
@@ -70,77 +123,71 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
 
         # iterate over pol
         for j, polpair in enumerate(polpairs1):
+            # get uvp2 index
+            j2 = polpairs2.index(polpair)
+
             # iterate over blp
-            for k, blp in enumerate(blps1):
-                # form keys
-                key1 = (i, blp, polpair)
-                key2 = (i2, blp, polpair)
+            for blp in blps1:
+                blp1_inds, blp2_inds = rows[blp]
 
                 # subtract data
-                blp1_inds = uvp1.blpair_to_indices(blp)
-                uvp1.data_array[i][blp1_inds, :, j] -= uvp2.get_data(key2)
+                uvp1.data_array[i][blp1_inds, :, j] -= uvp2.data_array[i2][
+                    blp2_inds, :, j2
+                ]
 
                 # add nsample inversely in quadrature
-                uvp1.nsample_array[i][blp1_inds, j] = np.sqrt(
-                    1.0
-                    / (
-                        1.0 / uvp1.get_nsamples(key1) ** 2
-                        + 1.0 / uvp2.get_nsamples(key2) ** 2
-                    )
+                uvp1.nsample_array[i][blp1_inds, j] = _inverse_quadrature(
+                    uvp1.nsample_array[i][blp1_inds, j],
+                    uvp2.nsample_array[i2][blp2_inds, j2],
                 )
 
                 # add integration inversely in quadrature
-                uvp1.integration_array[i][blp1_inds, j] = np.sqrt(
-                    1.0
-                    / (
-                        1.0 / uvp1.get_integrations(key1) ** 2
-                        + 1.0 / uvp2.get_integrations(key2) ** 2
-                    )
+                uvp1.integration_array[i][blp1_inds, j] = _inverse_quadrature(
+                    uvp1.integration_array[i][blp1_inds, j],
+                    uvp2.integration_array[i2][blp2_inds, j2],
                 )
 
                 # add wgts inversely in quadrature
-                uvp1.wgt_array[i][blp1_inds, :, :, j] = np.sqrt(
-                    1.0
-                    / (1.0 / uvp1.get_wgts(key1) ** 2 + 1.0 / uvp2.get_wgts(key2) ** 2)
+                wgts = _inverse_quadrature(
+                    uvp1.wgt_array[i][blp1_inds, :, :, j],
+                    uvp2.wgt_array[i2][blp2_inds, :, :, j2],
                 )
-                uvp1.wgt_array[i][blp1_inds, :, :, j] /= uvp1.wgt_array[i][
-                    blp1_inds, :, :, j
-                ].max()
+                wgts /= wgts.max()
+                uvp1.wgt_array[i][blp1_inds, :, :, j] = wgts
 
                 # add stats in quadrature: real imag separately
                 if hasattr(uvp1, "stats_array") and hasattr(uvp2, "stats_array"):
                     for s in uvp1.stats_array.keys():
-                        stat1 = uvp1.get_stats(s, key1)
-                        stat2 = uvp2.get_stats(s, key2)
+                        stat1 = uvp1.stats_array[s][i][blp1_inds, :, j]
+                        stat2 = uvp2.stats_array[s][i2][blp2_inds, :, j2]
                         uvp1.stats_array[s][i][blp1_inds, :, j] = np.sqrt(
                             stat1.real**2 + stat2.real**2
                         ) + 1j * np.sqrt(stat1.imag**2 + stat2.imag**2)
 
-                    # add cov in quadrature: real and imag separately
-                    if hasattr(uvp1, "cov_array_real") and hasattr(
-                        uvp2, "cov_array_real"
-                    ):
-                        if uvp1.cov_model == uvp2.cov_model:
-                            cov1r = uvp1.get_cov(key1, component="real")
-                            cov2r = uvp2.get_cov(key2, component="real")
-                            uvp1.cov_array_real[i][blp1_inds, :, :, j] = np.sqrt(
-                                cov1r**2 + cov2r**2
-                            )
-
-                            cov1i = uvp1.get_cov(key1, component="imag")
-                            cov2i = uvp2.get_cov(key2, component="imag")
-                            uvp1.cov_array_imag[i][blp1_inds, :, :, j] = np.sqrt(
-                                cov1i**2 + cov2i**2
+                # add cov in quadrature: real and imag separately
+                if (
+                    hasattr(uvp1, "stats_array")
+                    and hasattr(uvp2, "stats_array")
+                    and hasattr(uvp1, "cov_array_real")
+                    and hasattr(uvp2, "cov_array_real")
+                ):
+                    if uvp1.cov_model == uvp2.cov_model:
+                        for cov1, cov2 in (
+                            (uvp1.cov_array_real, uvp2.cov_array_real),
+                            (uvp1.cov_array_imag, uvp2.cov_array_imag),
+                        ):
+                            cov1[i][blp1_inds, :, :, j] = np.sqrt(
+                                cov1[i][blp1_inds, :, :, j] ** 2
+                                + cov2[i2][blp2_inds, :, :, j2] ** 2
                             )
 
                 # same for window function
                 if hasattr(uvp1, "window_function_array") and hasattr(
                     uvp2, "window_function_array"
                 ):
-                    window1 = uvp1.get_window_function(key1)
-                    window2 = uvp2.get_window_function(key2)
                     uvp1.window_function_array[i][blp1_inds, ..., j] = np.sqrt(
-                        window1**2 + window2**2
+                        uvp1.window_function_array[i][blp1_inds, ..., j] ** 2
+                        + uvp2.window_function_array[i2][blp2_inds, ..., j2] ** 2
                     )
 
     # run check
-- 
2.43.0


From b24b6ae930c18d0139f29e9e1ef8dbfb9c6bcd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:16 +0000
Subject: [PATCH 102/144] fix: subtract_uvp turned the weights of a flagged
 baseline-pair into NaN

---
 src/hera_pspec/uvpspec_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index f3a5cd9..f083a22 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -152,7 +152,9 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                     uvp1.wgt_array[i][blp1_inds, :, :, j],
                     uvp2.wgt_array[i2][blp2_inds, :, :, j2],
                 )
-                wgts /= wgts.max()
+                # (the weights of a completely flagged blpair stay zero)
+                if wgts.max() > 0:
+                    wgts /= wgts.max()
                 uvp1.wgt_array[i][blp1_inds, :, :, j] = wgts
 
                 # add stats in quadrature: real imag separately
-- 
2.43.0


From 2c0c0ff443d6eddb007f909980a2547a66e7df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:16 +0000
Subject: [PATCH 103/144] fix: subtract_uvp kept the covariance of one spectrum
 unless there were statistics

---
 src/hera_pspec/uvpspec_utils.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index f083a22..b51ee32 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -167,12 +167,7 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                         ) + 1j * np.sqrt(stat1.imag**2 + stat2.imag**2)
 
                 # add cov in quadrature: real and imag separately
-                if (
-                    hasattr(uvp1, "stats_array")
-                    and hasattr(uvp2, "stats_array")
-                    and hasattr(uvp1, "cov_array_real")
-                    and hasattr(uvp2, "cov_array_real")
-                ):
+                if hasattr(uvp1, "cov_array_real") and hasattr(uvp2, "cov_array_real"):
                     if uvp1.cov_model == uvp2.cov_model:
                         for cov1, cov2 in (
                             (uvp1.cov_array_real, uvp2.cov_array_real),
-- 
2.43.0


From 9088b550bdfa1d4de49e3ebdb8a2b47776d2e746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:24 +0000
Subject: [PATCH 104/144] fix: combine_uvpspec shared metadata arrays with its
 inputs

---
 src/hera_pspec/uvpspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index be211e1..27ed341 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3419,7 +3419,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
         u.symmetric_taper = symmetric_taper[0]
 
     for k in static_meta.keys():
-        setattr(u, k, static_meta[k])
+        setattr(u, k, copy.deepcopy(static_meta[k]))
 
     # beam integrals of each polarization pair
     for k in ["OmegaP", "OmegaPP"]:
-- 
2.43.0


From 37316c9ccd9e0cf0a1576d9841858aa2ba39e3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:57 +0000
Subject: [PATCH 105/144] fix: UVWindow.from_uvpspec used the first
 polarization's beam for mixed pairs

---
 src/hera_pspec/uvwindow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index 33109ff..b0a570d 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -443,7 +443,7 @@ class UVWindow:
         # create FTBeam objects
         ftbeam_obj_pol = []
         for ip, pol in enumerate(polpair):
-            if (ip > 0) and (pol[ip] == pol[0]):
+            if (ip > 0) and (polpair[ip] == polpair[0]):
                 # do not recompute if two polarisations are identical
                 ftbeam_obj_pol.append(ftbeam_obj_pol[0])
             else:
@@ -475,7 +475,7 @@ class UVWindow:
             + np.where(bandwidth >= freq_array[0] - 1e-9)[0][0]
         )
         for ip in range(2):
-            if (ip > 0) and (pol[ip] == pol[0]):
+            if (ip > 0) and (polpair[ip] == polpair[0]):
                 continue
             ftbeam_obj_pol[ip].update_spw(spw_range=tuple(spw_range))
 
-- 
2.43.0


From 7a50ba9a6cfc80832a7dee5101a49bda252a2ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:57 +0000
Subject: [PATCH 106/144] fix: window functions interpolated the beam along the
 diagonal of the kperp grid only

---
 src/hera_pspec/uvwindow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index b0a570d..b924de3 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -627,7 +627,9 @@ class UVWindow:
             A_real = RegularGridInterpolator(
                 (k, k), ft_beam[i], bounds_error=False, fill_value=0.0
             )
-            interp_ft_beam[:, :, i] = A_real(np.array([kgrid, kgrid]).T)
+            interp_ft_beam[:, :, i] = A_real(
+                np.stack(np.meshgrid(kgrid, kgrid, indexing="ij"), axis=-1)
+            )
 
         return interp_ft_beam, kperp_norm
 
-- 
2.43.0


From 367b0d9765e8192b89dd434d636af934a5c538a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:57 +0000
Subject: [PATCH 107/144] fix: exact window functions of odd numbers of
 channels held a wrong delay

---
 src/hera_pspec/uvwindow.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index b924de3..6a033b3 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -981,9 +981,11 @@ class UVWindow:
                 self.Nfreqs // 2 + 1 :
             ]
         # except for tau at 1/4 and 3/4 of the spectral window for symmetry reasons
-        _, cyl_wf[self.Nfreqs - self.Nfreqs // 4, :, :] = self._get_wf_for_tau(
-            -self.dly_array[self.Nfreqs // 4], wf_array1, kperp_bins, kpara_bins
-        )
+        # (an odd number of frequencies has no Nyquist mode and is symmetric)
+        if self.Nfreqs % 2 == 0:
+            _, cyl_wf[self.Nfreqs - self.Nfreqs // 4, :, :] = self._get_wf_for_tau(
+                -self.dly_array[self.Nfreqs // 4], wf_array1, kperp_bins, kpara_bins
+            )
 
         # normalisation of window functions
         sum_per_bin = np.sum(cyl_wf, axis=(1, 2))[:, None, None]
-- 
2.43.0


From 4235f59581a00b6921dc362c3cec481ce7baa731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 108/144] fix: rephase_to_dset skips datasets that are not
 drift phased

---
 src/hera_pspec/pspecdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 19b5d2d..2e8bbea 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4378,6 +4378,7 @@ class PSpecData:
             # skip if dataset is not drift phased
             if dset.phase_center_catalog[0]["cat_type"] != "unprojected":
                 warnings.warn(f"Skipping dataset {i} b/c it isn't unprojected")
+                continue
 
             # convert UVData to DataContainers. Note this doesn't make
             # a copy of the data
-- 
2.43.0


From 0ea53390cea76d696d3b0af534a5e9ed54012638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:18 +0000
Subject: [PATCH 109/144] fix: pspec_run passes allow_fft on to pspec

---
 src/hera_pspec/pspecdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 2e8bbea..55208c7 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -5215,6 +5215,7 @@ def pspec_run(
             store_window=store_window,
             exact_windows=exact_windows,
             ftbeam=ftbeam,
+            allow_fft=allow_fft,
         )
 
         # Store output
-- 
2.43.0


From a35fe23ef61c30a22927d3e97e315828c397b0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:54 +0000
Subject: [PATCH 110/144] fix: rephase_to_dset phases each baseline whatever
 the order of the baseline-times

---
 src/hera_pspec/pspecdata.py | 55 ++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 35 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 55208c7..eda445c 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4380,44 +4380,29 @@ class PSpecData:
                 warnings.warn(f"Skipping dataset {i} b/c it isn't unprojected")
                 continue
 
-            # convert UVData to DataContainers. Note this doesn't make
-            # a copy of the data
-            (data, flgs, antpos, ants, freqs, times, lsts, pols) = hc.io.load_vis(
-                dset, return_meta=True
+            # get antenna positions and telescope latitude
+            antpos = dict(
+                zip(dset.telescope.antenna_numbers, dset.telescope.get_enu_antpos())
             )
-
-            # make bls dictionary
-            bls = dict([(k, antpos[k[0]] - antpos[k[1]]) for k in data.keys()])
-
-            # Get dlst array
-            dlst = lst_grid - lsts
-
-            # get polarization list
-            pol_list = dset.polarization_array.tolist()
-
-            # get telescope latitude
             lat = dset.telescope.location.lat.deg
 
-            # rephase
-            hc.utils.lst_rephase(data, bls, freqs, dlst, lat=lat)
-
-            # re-insert into dataset
-            for j, k in enumerate(data.keys()):
-                # get blts indices of basline
-                indices = dset.antpair2ind(k[:2], ordered=False)
-
-                # get index in polarization_array for this polarization
-                polind = pol_list.index(
-                    uvutils.polstr2num(
-                        k[-1],
-                        x_orientation=self.dsets[
-                            0
-                        ].telescope.get_x_orientation_from_feeds(),
-                    )
-                )
-
-                # insert into dset
-                dset.data_array[indices, :, polind] = data[k]
+            # rephase all polarizations of each baseline
+            for ant1, ant2 in dset.get_antpairs():
+                # get blts indices of baseline
+                indices = dset.antpair2ind((ant1, ant2))
+
+                # Get dlst array
+                dlst = lst_grid - dset.lst_array[indices]
+
+                # rephase, and re-insert into dataset
+                dset.data_array[indices] = hc.utils.lst_rephase(
+                    dset.data_array[indices][:, None],
+                    np.array([antpos[ant1] - antpos[ant2]]),
+                    dset.freq_array,
+                    dlst,
+                    lat=lat,
+                    inplace=False,
+                )[:, 0]
 
             # set phasing in UVData object to unknown b/c there isn't a single
             # consistent phasing for the entire data set.
-- 
2.43.0


From 8473d2d05ce3920c190a5b328af6876d0d733285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 111/144] fix: pspec_run script builds a cosmology from the
 given parameters

---
 scripts/pspec_run.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/pspec_run.py b/scripts/pspec_run.py
index 03e3e5e..e6c4758 100755
--- a/scripts/pspec_run.py
+++ b/scripts/pspec_run.py
@@ -3,7 +3,7 @@ import sys
 
 from hera_cal._cli_tools import filter_kwargs, parse_args, run_with_profiling
 
-from hera_pspec import pspecdata
+from hera_pspec import conversions, pspecdata
 
 # parse args
 args = pspecdata.get_pspec_run_argparser()
@@ -18,6 +18,9 @@ filename = kwargs.pop("filename")
 # we want to compute cross-corr power spectra by default so feed
 # the inverse of the include_autocorrs arg.
 kwargs["include_crosscorrs"] = not (kwargs.pop("exclude_crosscorrs"))
+# turn list of cosmological parameters into a Cosmo_Conversions object
+if kwargs["cosmo"] is not None:
+    kwargs["cosmo"] = conversions.Cosmo_Conversions(*kwargs["cosmo"])
 # get special kwargs
 history = " ".join(sys.argv)
 
-- 
2.43.0


From 7310b7479e08f9fe286c8b794d3c901496be7a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 112/144] fix: bootstrap_run script does not pass logging and
 profiling arguments on

---
 scripts/bootstrap_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/bootstrap_run.py b/scripts/bootstrap_run.py
index 1464ab6..8a11c1c 100755
--- a/scripts/bootstrap_run.py
+++ b/scripts/bootstrap_run.py
@@ -4,14 +4,14 @@ Pipeline script to load a PSpecContainer and bootstrap over redundant baseline-
 pair groups to produce errorbars.
 """
 
-from hera_cal._cli_tools import parse_args, run_with_profiling
+from hera_cal._cli_tools import filter_kwargs, parse_args, run_with_profiling
 
 from hera_pspec import grouping
 
 # Parse commandline args
 args = grouping.get_bootstrap_run_argparser()
 a = parse_args(args)
-kwargs = vars(a)  # dict of args
+kwargs = filter_kwargs(vars(a))  # dict of args
 
 # Get arguments
 filename = kwargs.pop("filename")
-- 
2.43.0


From 229c739bffea614f6b56b402a7ff6829b17eb115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 113/144] fix: psc_merge_spectra script uses the existing
 parser and argument names

---
 scripts/psc_merge_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/psc_merge_spectra.py b/scripts/psc_merge_spectra.py
index 1e594df..a083795 100755
--- a/scripts/psc_merge_spectra.py
+++ b/scripts/psc_merge_spectra.py
@@ -9,14 +9,14 @@ from hera_cal._cli_tools import parse_args, run_with_profiling
 from hera_pspec import container
 
 # Parse commandline args
-args = container.get_combine_psc_argparser()
+args = container.get_combine_psc_spectra_argparser()
 a = parse_args(args)
 
 run_with_profiling(
     container.combine_psc_spectra,
     a,
     psc=a.filename,
-    uvp_split_str=a.uvp_split_str,
+    dset_split_str=a.dset_split_str,
     ext_split_str=a.ext_split_str,
     verbose=a.verbose,
 )
-- 
2.43.0


From 7620cc30ed4b563215c6a014435a6f3033ac5cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:47 +0000
Subject: [PATCH 114/144] fix: auto_noise_run script handles given spectra and
 transactional containers

---
 scripts/auto_noise_run.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scripts/auto_noise_run.py b/scripts/auto_noise_run.py
index 8e470e7..197bb99 100644
--- a/scripts/auto_noise_run.py
+++ b/scripts/auto_noise_run.py
@@ -24,13 +24,14 @@ def main(args):
     # iterate through spectra and groups,
     # compute noise, and update container.
     for group in groups:
-        if args.spectra is None:
-            spectra = psc.spectra(group)
+        spectra = psc.spectra(group)
+        if args.spectra is not None:
+            # spectra are named with their group prefix
+            spectra = [spec for spec in spectra if f"{group}/{spec}" in args.spectra]
         for spec in spectra:
             uvp = psc.get_pspec(group, spec)
             utils.uvp_noise_error(uvp, auto_Tsys, err_type=args.err_type)
             psc.set_pspec(group, spec, uvp, overwrite=True)
-    psc.save()
 
 
 parser = utils.uvp_noise_error_parser()
-- 
2.43.0


From a007d85c979f7e50e7c234fc1e7f3ffb0cd0c3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:37 +0000
Subject: [PATCH 115/144] fix: boolean options of the command-line parsers
 understand False

---
 src/hera_pspec/grouping.py  |  6 +++---
 src/hera_pspec/pspecdata.py |  2 +-
 src/hera_pspec/utils.py     | 14 ++++++++++++++
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 5c90dff..31b05c0 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2213,7 +2213,7 @@ def get_bootstrap_run_argparser():
     a.add_argument(
         "--time_avg",
         default=False,
-        type=bool,
+        type=utils.str_to_bool,
         help="Perform time-average in averaging step.",
     )
     a.add_argument(
@@ -2231,13 +2231,13 @@ def get_bootstrap_run_argparser():
     a.add_argument(
         "--normal_std",
         default=True,
-        type=bool,
+        type=utils.str_to_bool,
         help="Whether to calculate a 'normal' standard deviation (np.std).",
     )
     a.add_argument(
         "--robust_std",
         default=False,
-        type=bool,
+        type=utils.str_to_bool,
         help="Whether to calculate a 'robust' standard deviation (astropy.stats.biweight_midvariance).",
     )
     a.add_argument(
diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index eda445c..9027d2c 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -5479,7 +5479,7 @@ def get_pspec_run_argparser():
     a.add_argument(
         "--symmetric_taper",
         default=True,
-        type=bool,
+        type=utils.str_to_bool,
         help="If True, apply sqrt of taper before foreground filtering and then another sqrt after. If False, apply full taper after foreground Filter. ",
     )
     a.add_argument(
diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index fbd4982..595f255 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1727,6 +1727,20 @@ def uvp_noise_error(
         apply_P_SN_correction(uvp, P_SN="P_SN", P_N=precomp_P_N)
 
 
+def str_to_bool(v):
+    """
+    Parse a boolean command-line argument (``type=bool`` would be True for any
+    non-empty string, including 'False').
+    """
+    if isinstance(v, bool):
+        return v
+    if v.lower() in ("true", "t", "yes", "y", "1"):
+        return True
+    if v.lower() in ("false", "f", "no", "n", "0", ""):
+        return False
+    raise argparse.ArgumentTypeError(f"expected a boolean, got {v!r}")
+
+
 def uvp_noise_error_parser():
     """
     Get argparser to generate noise error bars using autos
-- 
2.43.0


From 2b28a8dff0cd8d52036d281002977ebad8ffe3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 116/144] fix: delay_waterfall's abs-imag component shows the
 imaginary part

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index bf71cb7..a29c30e 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -721,7 +721,7 @@ def delay_waterfall(
             elif component == "imag":
                 power = np.imag(power)
             elif component == "abs-imag":
-                power = np.abs(np.real(power))
+                power = np.abs(np.imag(power))
 
             # if real or imag and log is True, set negative values to near zero
             # this is done so that one can use cmap.set_under() and cmap.set_bad() separately
-- 
2.43.0


From d81c534e2a0f2266445195fe75d0ed5fc02b59de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 117/144] fix: flagged rows do not blank the negative
 bandpowers of a waterfall or wedge

---
 src/hera_pspec/plot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index a29c30e..7d12505 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -726,7 +726,7 @@ def delay_waterfall(
             # if real or imag and log is True, set negative values to near zero
             # this is done so that one can use cmap.set_under() and cmap.set_bad() separately
             if fix_negval:
-                power[power < 0] = np.abs(power).min() * 1e-6 + 1e-10
+                power[power < 0] = np.nanmin(np.abs(power)) * 1e-6 + 1e-10
 
             # assign to waterfall
             waterfall[key] = power
@@ -1154,7 +1154,7 @@ def delay_wedge(
     # if real or imag and log is True, set negative values to near zero
     # this is done so that one can use cmap.set_under() and cmap.set_bad() separately
     if fix_negval:
-        data[data < 0] = np.abs(data).min() * 1e-6 + 1e-10
+        data[data < 0] = np.nanmin(np.abs(data)) * 1e-6 + 1e-10
 
     # take log10
     if log10:
-- 
2.43.0


From 225b104d22770aba33060fd39c10270e2d677291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 118/144] fix: delay_wedge selects the requested baseline-pairs
 without times too

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 7d12505..9bb79d1 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1075,7 +1075,7 @@ def delay_wedge(
         fig = ax.get_figure()
 
     # Select out times and blpairs if provided
-    if times is not None:
+    if times is not None or blpairs is not None:
         uvp.select(blpairs=blpairs, times=times, inplace=True)
 
     # Average across redundant groups and time
-- 
2.43.0


From 9e9420ebaba8693b5453287bbea2ef31520b7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 119/144] fix: delay_spectrum averages the errors and
 statistics it plots

---
 src/hera_pspec/plot.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 9bb79d1..422aee2 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -312,15 +312,26 @@ def delay_spectrum(
 
     # Average over blpairs or times if requested
     blpairs_in = copy.deepcopy(blpairs)  # Save input blpair list
+    # Averaging drops the stats_array entries that are not named here
+    error_field = [
+        stat
+        for stat in dict.fromkeys((error, plot_stats))
+        if stat is not None and stat in getattr(uvp, "stats_array", {})
+    ]
     if average_blpairs:
         uvp_plt = uvp.average_spectra(
-            blpair_groups=blpairs, time_avg=average_times, inplace=False
+            blpair_groups=blpairs,
+            time_avg=average_times,
+            error_field=error_field or None,
+            inplace=False,
         )
     else:
         uvp_plt = copy.deepcopy(uvp)
         if average_times:
             # Average over times, but not baseline-pairs
-            uvp_plt.average_spectra(time_avg=True, inplace=True)
+            uvp_plt.average_spectra(
+                time_avg=True, error_field=error_field or None, inplace=True
+            )
 
     # Check plot size
     if uvp_plt.Ntimes * len(blpairs) > 100 and not force_plot:
-- 
2.43.0


From 4be4cb56ce324a763374b6145d2eef08001426d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:29 +0000
Subject: [PATCH 120/144] fix: delay_wedge orders the kperp axis like the
 spectra

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 422aee2..78d8fbc 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1122,7 +1122,7 @@ def delay_wedge(
         y_axis = blpair_seps
     else:
         x_axis = uvp.get_kparas(spw, little_h=little_h)
-        y_axis = uvp.get_kperps(spw, little_h=little_h)
+        y_axis = uvp.get_kperps(spw, little_h=little_h)[osort]
     if rotate:
         _x_axis = y_axis
         y_axis = x_axis
-- 
2.43.0


From db00ac791a04752aef0712d82e74e75b7f2b859c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:24 +0000
Subject: [PATCH 121/144] fix: plot_uvdata_waterfalls plots flags in every mode

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 78d8fbc..2f5b23f 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1413,7 +1413,7 @@ def plot_uvdata_waterfalls(
         if data == "data":
             pass
         elif data == "flags":
-            d = uvd.get_flags((ant1, ant2, pol))
+            d = uvd.get_flags((ant1, ant2, pol)).astype(float)
         elif data == "nsamples":
             d = uvd.get_nsamples((ant1, ant2, pol))
         else:
-- 
2.43.0


From ac5bf9c101a3efcf9673ee93fc603dafef2891cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:24 +0000
Subject: [PATCH 122/144] fix: plot_uvdata_waterfalls recognises the whole file
 extension

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 2f5b23f..91f5aa3 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1429,7 +1429,7 @@ def plot_uvdata_waterfalls(
         outfile = basename.format(bl="%d.%d" % (ant1, ant2), pol=pol)
         if format is not None:
             # Make sure format extension is given
-            if outfile[-len(format)].lower() != format.lower():
+            if not outfile.lower().endswith("." + format.lower()):
                 outfile = "%s.%s" % (outfile, format)
         fig.tight_layout()
         fig.savefig(outfile, format=format)
-- 
2.43.0


From 3b374ddb0499072289872d2e044a6ce0c71c567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:24 +0000
Subject: [PATCH 123/144] fix: flagged rows of imaginary waterfalls are blank

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 91f5aa3..b7e7399 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -720,7 +720,7 @@ def delay_waterfall(
             power = uvp_plt.get_data(key, omit_flags=False)
             # set flagged power data to nan
             flags = np.isclose(uvp_plt.get_integrations(key), 0.0)
-            power[flags, :] = np.nan
+            power[flags, :] = complex(np.nan, np.nan)
 
             # get component
             if component == "abs":
-- 
2.43.0


From 71c6e03ff226843b790333f50e291b71a4dc1d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:41 +0000
Subject: [PATCH 124/144] fix: spherical_wf_from_uvp leaves the caller's bin
 edges alone

---
 src/hera_pspec/grouping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 31b05c0..cd8af3b 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1338,11 +1338,11 @@ def spherical_wf_from_uvp(
         # we modify the units of the input kbins to be consistent with uvp_in
         # and, likely, the units of the pre-computed window functions.
         if little_h:
-            kbin_edges *= uvp_in.cosmo.h
-            kbin_edges_theory *= uvp_in.cosmo.h
+            kbin_edges = kbin_edges * uvp_in.cosmo.h
+            kbin_edges_theory = kbin_edges_theory * uvp_in.cosmo.h
         else:
-            kbin_edges /= uvp_in.cosmo.h
-            kbin_edges_theory /= uvp_in.cosmo.h
+            kbin_edges = kbin_edges / uvp_in.cosmo.h
+            kbin_edges_theory = kbin_edges_theory / uvp_in.cosmo.h
         # final little_h matches the units of uvp_in
         little_h = "h^-3" in uvp_in.norm_units
 
-- 
2.43.0


From 250a502e6a3d108e4c6dc6153d190db72631d40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:57 +0000
Subject: [PATCH 125/144] fix: cov_q_hat refuses the time after the last

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 9027d2c..aecebb8 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1452,7 +1452,7 @@ class PSpecData:
             assert isinstance(key1, list), "key2 is a list, key1 must be a list"
         # check time_indices
         for tind in time_indices:
-            if not (tind >= 0 and tind <= self.Ntimes):
+            if not (tind >= 0 and tind < self.Ntimes):
                 raise ValueError("Invalid time index provided.")
 
         if not isinstance(key1, list):
-- 
2.43.0


From 2f5e234543dd242e092de858ae4b6d7c8ce6a809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:57 +0000
Subject: [PATCH 126/144] fix: cov_q_hat computes the covariance of the autos
 model

---
 src/hera_pspec/pspecdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index aecebb8..6743d20 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1464,7 +1464,7 @@ class PSpecData:
             (len(time_indices), self.spw_Ndlys, self.spw_Ndlys), dtype=complex
         )
         for k1, k2 in zip(key1, key2):
-            if model == "dsets":
+            if model != "empirical":
                 output += 1.0 / np.asarray(
                     [
                         self.get_unnormed_V(
@@ -1479,7 +1479,7 @@ class PSpecData:
                     ]
                 )
 
-            elif model == "empirical":
+            else:
                 cm = self.get_unnormed_V(
                     k1, k2, model=model, exact_norm=exact_norm, pol=pol
                 )
-- 
2.43.0


From 1ff333b3879fef8281f3c885b2887a152da59797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:57 +0000
Subject: [PATCH 127/144] fix: cov_p_hat conjugates the second normalization
 matrix

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 6743d20..a39d8fc 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2857,7 +2857,7 @@ class PSpecData:
         """
         p_cov = np.zeros_like(q_cov)
         for tnum in range(len(p_cov)):
-            p_cov[tnum] = np.einsum("ab,cd,bd->ac", M, M, q_cov[tnum])
+            p_cov[tnum] = np.einsum("ab,cd,bd->ac", M, np.conj(M), q_cov[tnum])
         return p_cov
 
     def broadcast_dset_flags(self, spw_ranges=None, time_thresh=0.2, unflag=False):
-- 
2.43.0


From 83e03077f09d86c680b0e68b73ba26557349d488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:15 +0000
Subject: [PATCH 128/144] fix: PSpecData.add takes several datasets without
 weights

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index a39d8fc..efb621f 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -188,7 +188,7 @@ class PSpecData:
         if isinstance(cals, UVCal):
             cals = [cals]
         if wgts is None:
-            wgts = [wgts]
+            wgts = [wgts for m in range(len(dsets))]
         if dsets_std is None:
             dsets_std = [dsets_std for m in range(len(dsets))]
         if cals is None:
-- 
2.43.0


From 0bf15b53d83d31cea10f40573ec0bfa66ac72522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:15 +0000
Subject: [PATCH 129/144] fix: PSpecData takes a dict of datasets without
 weights

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index efb621f..2cc4392 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -90,7 +90,7 @@ class PSpecData:
         self.taper = "none"
         self.symmetric_taper = True
         # Set all weights to None if wgts=None
-        if wgts is None:
+        if wgts is None and not isinstance(dsets, dict):
             wgts = [None for dset in dsets]
 
         # set dsets_std to None if any are None.
-- 
2.43.0


From bff56b34babde63e77dc21357be47204a20512a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:40 +0000
Subject: [PATCH 130/144] fix: _combine_pol resolves polarization strings with
 its x_orientation

---
 src/hera_pspec/pstokes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index 8150881..58fff7c 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -135,6 +135,7 @@ def _combine_pol(uvd1, uvd2, pol1, pol2, pstokes="pI", x_orientation=None):
         [uvd1.data_array, uvd2.data_array],
         [uvd1.flag_array, uvd2.flag_array],
         [uvd1.nsample_array, uvd2.nsample_array],
+        x_orientation=x_orientation,
     )
 
     # convert pStokes to polarization integer if a string
-- 
2.43.0


From 29b9941b8c0b5f9b59f550fd95a69a1e19ddfb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:52 +0000
Subject: [PATCH 131/144] fix: noise_sim extends the given object in place

---
 src/hera_pspec/testing.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index 0ae7c14..04dde60 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -420,7 +420,6 @@ def noise_sim(
         assert data.phase_center_catalog[0]["cat_type"] == "unprojected", (
             "data must be unprojected in order to extend along time axis"
         )
-        data = copy.deepcopy(data)
         _data = copy.deepcopy(data)
         dt = np.median(np.diff(np.unique(_data.time_array)))
         dl = np.median(np.diff(np.unique(_data.lst_array)))
-- 
2.43.0


From b7f46a3eee65fc31d71472a4a129076a5d93f8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:52 +0000
Subject: [PATCH 132/144] fix: noise_sim extends the time axis without gaps

---
 src/hera_pspec/testing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index 04dde60..99fb182 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -423,9 +423,9 @@ def noise_sim(
         _data = copy.deepcopy(data)
         dt = np.median(np.diff(np.unique(_data.time_array)))
         dl = np.median(np.diff(np.unique(_data.lst_array)))
-        for i in range(Nextend):
-            _data.time_array += dt * _data.Ntimes * (i + 1)
-            _data.lst_array += dl * _data.Ntimes * (i + 1)
+        for _ in range(Nextend):
+            _data.time_array += dt * _data.Ntimes
+            _data.lst_array += dl * _data.Ntimes
             _data.lst_array %= 2 * np.pi
             data += _data
 
-- 
2.43.0


From b49d568baf2e1825a0f523c6f023e8ddca201a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:52 +0000
Subject: [PATCH 133/144] fix: noise_sim labels its output with its units

---
 src/hera_pspec/testing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index 99fb182..6436f3c 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -465,6 +465,7 @@ def noise_sim(
         stats.norm.rvs(0, 1.0 / np.sqrt(2), size=rms.size).reshape(rms.shape)
         + 1j * stats.norm.rvs(0, 1.0 / np.sqrt(2), size=rms.size).reshape(rms.shape)
     ) * rms
+    data.vis_units = "Jy" if beam is not None else "K str"
     f = np.isnan(data.data_array) + np.isinf(data.data_array)
     data.data_array[f] = np.nan
     data.flag_array[f] = True
-- 
2.43.0


From 635d56c4206a733872517dce758c6f5b208370e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 134/144] fix: noise_sim extends LSTs across LST=0

---
 src/hera_pspec/testing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index 6436f3c..2ff2b5a 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -422,7 +422,8 @@ def noise_sim(
         )
         _data = copy.deepcopy(data)
         dt = np.median(np.diff(np.unique(_data.time_array)))
-        dl = np.median(np.diff(np.unique(_data.lst_array)))
+        _, t_inds = np.unique(_data.time_array, return_index=True)
+        dl = np.median(np.diff(np.unwrap(_data.lst_array[t_inds])))
         for _ in range(Nextend):
             _data.time_array += dt * _data.Ntimes
             _data.lst_array += dl * _data.Ntimes
-- 
2.43.0


From 22034e58c7d2f9c5500dd49862992d0464cfd19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 135/144] fix: sky_noise_sim takes any PSpecBeam object

---
 src/hera_pspec/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index 2ff2b5a..4887779 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -650,7 +650,7 @@ def sky_noise_sim(
             OmegaP[pol] = beam.power_beam_int(pol)
         # interpolate to freq_array of data
         OmegaP[pol] = interpolate.interp1d(
-            beam.primary_beam.freq_array,
+            beam.beam_freqs,
             OmegaP[pol],
             kind="linear",
             bounds_error=False,
-- 
2.43.0


From b0f76a5c3562d8fef4105a9e72de87e89a41df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 136/144] fix: sky_noise_jy_autos returns one row per LST for a
 constant autocorrelation

---
 src/hera_pspec/testing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index 4887779..699a7b9 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -570,6 +570,8 @@ def sky_noise_jy_autos(
     # Use autocorrelation vsibility to set noise scale
     Tsky = autovis * Jy2K.reshape(1, -1)
     Tsky += Trx  # add in the receiver temperature
+    if Tsky.shape[0] == 1:
+        Tsky = np.repeat(Tsky, np.size(lsts), axis=0)
 
     # Calculate noise visibility sts. dev. in Jy (assuming Tsky is in K)
     vis = Tsky / np.sqrt(integration_time * channel_width) / Jy2K.reshape(1, -1)
-- 
2.43.0


From 85c71c97c7123a1580e3a7d813303cd974d126b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 137/144] fix: sky_noise_jy_autos takes omega_p as a list

---
 src/hera_pspec/testing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index 699a7b9..7718dfb 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -557,6 +557,7 @@ def sky_noise_jy_autos(
     # Beam solid angle
     if callable(omega_p):
         omega_p = omega_p(freqs)
+    omega_p = np.asarray(omega_p)
     assert omega_p.size == freqs.size, "`omega_p` must have the same length as `freqs`"
 
     if channel_width is None:
-- 
2.43.0


From 04b5faaacef18405b5f0b79a9c82fbd791871df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:19 +0000
Subject: [PATCH 138/144] fix: noise_sim converts a single channel to Jy

---
 src/hera_pspec/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index 7718dfb..2b79a8a 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -446,9 +446,9 @@ def noise_sim(
 
     # Get Vrms in Jy using beam
     if beam is not None:
-        freqs = np.unique(data.freq_array)[None, :, None]
+        freqs = np.unique(data.freq_array)
         K_to_Jy = [
-            1e3 / (beam.Jy_to_mK(freqs.squeeze(), pol=p))
+            1e3 / (beam.Jy_to_mK(freqs, pol=p))
             for p in data.polarization_array
         ]
         K_to_Jy = np.array(K_to_Jy).T[None, :, :]
-- 
2.43.0


From f4bb7e773238fddd016bac1be2ff5902a493039b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:39 +0000
Subject: [PATCH 139/144] fix: files written before Nbltpairs can be read in
 part

---
 src/hera_pspec/uvpspec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 27ed341..bcdbaa2 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1844,6 +1844,10 @@ class UVPSpec:
             polpair_arr = [uvputils.polpair_tuple2int((p, p)) for p in pol_arr]
             setattr(self, "polpair_array", np.array(polpair_arr))
 
+        # Backwards compatibility: Nblpairts (not Nbltpairs)
+        if hasattr(self, "Nblpairts"):
+            setattr(self, "Nbltpairs", self.Nblpairts)
+
         # Backwards compatibility: exact_windows
         if "exact_windows" not in grp.attrs:
             setattr(self, "exact_windows", False)
@@ -1882,7 +1886,6 @@ class UVPSpec:
         # Nblpairts field.
         if hasattr(self, "Nblpairts"):
             reading_old_version = True
-            setattr(self, "Nbltpairs", self.Nblpairts)
         else:
             reading_old_version = False
 
-- 
2.43.0


From 8b2367a86a63ab36ed59a23762a482c22363e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:43 +0000
Subject: [PATCH 140/144] fix: trim_dset_lsts measures the LST spacing across
 LST=0

---
 src/hera_pspec/pspecdata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 2cc4392..1562c7d 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4490,9 +4490,13 @@ class PSpecData:
         self.clear_cache()
 
         # ensure each dset has same dLST within tolerance / Ntimes
-        dlst = np.median(np.diff(np.unique(self.dsets[0].lst_array)))
+        def _median_dlst(dset):
+            _, t_inds = np.unique(dset.time_array, return_index=True)
+            return np.median(np.diff(np.unwrap(dset.lst_array[t_inds])))
+
+        dlst = _median_dlst(self.dsets[0])
         for dset in self.dsets:
-            _dlst = np.median(np.diff(np.unique(dset.lst_array)))
+            _dlst = _median_dlst(dset)
             if not np.isclose(dlst, _dlst, atol=10 ** (-lst_tol) / dset.Ntimes):
                 raise ValueError(
                     "Not all datasets in self.dsets are on the same LST "
-- 
2.43.0


From 84fd51461697a64dad6a77543ff8b6b20aab06b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:50 +0000
Subject: [PATCH 141/144] fix: UVPSpec equality tells baselines, times and
 small values apart

---
 src/hera_pspec/uvpspec.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index bcdbaa2..d11a9a0 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -49,6 +49,21 @@ def _normalize_spw_array_input(spw_array, valid_spws):
     return spw_values
 
 
+def _arrays_match(a, b, rtol=1e-5, atol=None):
+    """
+    Whether two arrays hold the same values: exactly for integers and strings,
+    within a relative tolerance (and, by default, rounding of their largest
+    value) otherwise. Missing values (nan) match each other.
+    """
+    if np.shape(a) != np.shape(b):
+        return False
+    if not np.issubdtype(np.result_type(a, b), np.inexact):
+        return bool(np.all(a == b))
+    if atol is None:
+        atol = 1e-8 * np.max(np.abs(a), initial=0.0, where=np.isfinite(a))
+    return np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
+
+
 class UVPSpec:
     """
     An object for storing power spectra generated by hera_pspec and a file-format
@@ -2493,15 +2508,12 @@ class UVPSpec:
                 if p in self._immutables:
                     assert getattr(self, p) == getattr(other, p)
                 elif p in self._ndarrays:
-                    if issubclass(getattr(self, p).dtype.type, str):
-                        assert np.all(getattr(self, p) == getattr(other, p))
-                    else:
-                        assert np.isclose(getattr(self, p), getattr(other, p)).all()
+                    # times are Julian dates: a relative tolerance would be days
+                    tols = {"rtol": 0.0, "atol": 1e-6} if p.startswith("time_") else {}
+                    assert _arrays_match(getattr(self, p), getattr(other, p), **tols)
                 elif p in self._dicts:
                     for i in getattr(self, p):
-                        assert np.isclose(
-                            getattr(self, p)[i], getattr(other, p)[i]
-                        ).all()
+                        assert _arrays_match(getattr(self, p)[i], getattr(other, p)[i])
 
         except AssertionError:
             if verbose:
-- 
2.43.0


From 4116d64eb8d169f6fc57c2214676ce59b5438c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:50 +0000
Subject: [PATCH 142/144] fix: UVPSpec equality when only one object has an
 attribute

---
 src/hera_pspec/uvpspec.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index d11a9a0..cae5484 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2497,14 +2497,15 @@ class UVPSpec:
 
     def __eq__(self, other, params=None, verbose=False):
         """Check equivalence between attributes of two UVPSpec objects"""
+        if not isinstance(other, UVPSpec):
+            return NotImplemented
         if params is None:
             params = self._all_params
         try:
             for p in params:
-                if p not in self._req_params and (
-                    not hasattr(self, p) and not hasattr(other, p)
-                ):
+                if not hasattr(self, p) and not hasattr(other, p):
                     continue
+                assert hasattr(self, p) and hasattr(other, p)
                 if p in self._immutables:
                     assert getattr(self, p) == getattr(other, p)
                 elif p in self._ndarrays:
@@ -2512,6 +2513,7 @@ class UVPSpec:
                     tols = {"rtol": 0.0, "atol": 1e-6} if p.startswith("time_") else {}
                     assert _arrays_match(getattr(self, p), getattr(other, p), **tols)
                 elif p in self._dicts:
+                    assert getattr(self, p).keys() == getattr(other, p).keys()
                     for i in getattr(self, p):
                         assert _arrays_match(getattr(self, p)[i], getattr(other, p)[i])
 
-- 
2.43.0


From dbf7e4c3e7f1d25e74a253a5d7bb98d6fadaac8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:50 +0000
Subject: [PATCH 143/144] fix: UVPSpec equality compares stats arrays

---
 src/hera_pspec/uvpspec.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index cae5484..c30096d 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2516,6 +2516,13 @@ class UVPSpec:
                     assert getattr(self, p).keys() == getattr(other, p).keys()
                     for i in getattr(self, p):
                         assert _arrays_match(getattr(self, p)[i], getattr(other, p)[i])
+                elif p in self._dicts_of_dicts:
+                    a, b = getattr(self, p), getattr(other, p)
+                    assert a.keys() == b.keys()
+                    for k in a:
+                        assert a[k].keys() == b[k].keys()
+                        for i in a[k]:
+                            assert _arrays_match(a[k][i], b[k][i])
 
         except AssertionError:
             if verbose:
-- 
2.43.0


From 29eedb8c1d64435b991e6d2c8a295f8c244b3d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:53:55 +0000
Subject: [PATCH 144/144] fix: Cosmo_Conversions equality with objects of
 another type

---
 src/hera_pspec/conversions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/conversions.py b/src/hera_pspec/conversions.py
index b6a18ab..ea2bd6f 100644
--- a/src/hera_pspec/conversions.py
+++ b/src/hera_pspec/conversions.py
@@ -395,4 +395,6 @@ class Cosmo_Conversions:
         """
         Check two Cosmo_Conversion objects are equivalent
         """
+        if not isinstance(other, Cosmo_Conversions):
+            return NotImplemented
         return self.get_params() == other.get_params()
-- 
2.43.0

