From 69d2a54ed2883d6d275e0fd50dc2d99108edbdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 001/137] fix: keep dataset labels aligned with the data in
 UVPSpec selections

---
 src/hera_pspec/uvpspec_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 465dd15..ad6836e 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -745,6 +745,14 @@ def _select(
     else:
         polpair_select = slice(None)
 
+    # down-select the dataset labels, shape (Nspws, Nbltpairs, Npols)
+    for lbl in ["label_1_array", "label_2_array"]:
+        if hasattr(uvp, lbl):
+            arr = getattr(uvp, lbl)
+            if spw_mapping is not None:
+                arr = arr[spw_mapping]
+            setattr(uvp, lbl, arr[:, blp_select][:, :, polpair_select])
+
     # determine if data arrays are sliceable
     if isinstance(polpair_select, slice) or isinstance(blp_select, slice):
         sliceable = True
-- 
2.43.0


From 72d960672c313c0f6bfe4f8a3258f795d8cdfa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 002/137] fix: keep the full delay axis when selecting spectral
 windows of folded spectra

---
 src/hera_pspec/uvpspec_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index ad6836e..df7390d 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -587,9 +587,11 @@ def _select(
     spw_mapping = None
     if spws is not None:
         # Get info for each spw that will be retained
+        # (the whole delay axis is kept, since the data arrays of folded spectra
+        # still hold their negative delays)
         spw_freq_select = uvp.spw_to_freq_indices(spws)
-        spw_dly_select = uvp.spw_to_dly_indices(spws)
         spw_select = uvp.spw_indices(spws)
+        spw_dly_select = np.isin(uvp.spw_dly_array, uvp.spw_array[spw_select])
         uvp.spw_freq_array = uvp.spw_freq_array[spw_freq_select]
         uvp.spw_dly_array = uvp.spw_dly_array[spw_dly_select]
 
@@ -613,7 +615,7 @@ def _select(
                 continue
             spw = np.min(uvp.spw_array[uvp.spw_array > i])
             spw_freq_select = uvp.spw_to_freq_indices(spw)
-            spw_dly_select = uvp.spw_to_dly_indices(spw)
+            spw_dly_select = uvp.spw_dly_array == spw
             spw_select = uvp.spw_indices(spw)
             uvp.spw_freq_array[spw_freq_select] = i
             uvp.spw_dly_array[spw_dly_select] = i
-- 
2.43.0


From 4059ac30410623ee1ac0d44b0202b7216648d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 003/137] fix: a failed PSpecContainer.set_pspec leaves stored
 spectra intact

---
 src/hera_pspec/container.py | 58 ++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index a680ea4..1ca922d 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -335,31 +335,49 @@ class PSpecContainer:
         key2 = "%s" % psname
 
         # Check that the group exists
-        if key1 not in list(self.data.keys()):
+        new_group = key1 not in list(self.data.keys())
+        if new_group:
             grp = self.data.create_group(key1)
         else:
             grp = self.data[key1]
 
         # Check that the psname exists
-        if key2 not in list(grp.keys()):
-            # Create group if it doesn't exist
-            psgrp = grp.create_group(key2)
-        else:
-            if overwrite:
-                # Delete group and recreate
-                del grp[key2]
-                psgrp = grp.create_group(key2)
-            else:
-                raise AttributeError(
-                    "Power spectrum %s/%s already exists and overwrite=False."
-                    % (key1, key2)
-                )
-
-        # Add power spectrum to this group
-        self._store_pspec(psgrp, pspec)
-
-        # Store info about what kind of power spectra are in the group
-        psgrp.attrs["pspec_type"] = pspec.__class__.__name__
+        exists = key2 in list(grp.keys())
+        if exists and not overwrite:
+            raise AttributeError(
+                "Power spectrum %s/%s already exists and overwrite=False." % (key1, key2)
+            )
+
+        # Write to a temporary group, and only replace an existing power spectrum
+        # once that has succeeded: a failed write must not lose stored spectra
+        tmp, backup = key2 + ".tmp", key2 + ".bak"
+        while tmp in grp or backup in grp:
+            tmp, backup = tmp + "_", backup + "_"
+        try:
+            psgrp = grp.create_group(tmp)
+
+            # Add power spectrum to this group
+            self._store_pspec(psgrp, pspec)
+
+            # Store info about what kind of power spectra are in the group
+            psgrp.attrs["pspec_type"] = pspec.__class__.__name__
+
+            if exists:
+                grp.move(key2, backup)
+            grp.move(tmp, key2)
+            if exists:
+                del grp[backup]
+        except Exception:
+            # Restore the container to its previous state
+            if backup in grp:
+                if key2 in grp:
+                    del grp[key2]
+                grp.move(backup, key2)
+            if tmp in grp:
+                del grp[tmp]
+            if new_group:
+                del self.data[key1]
+            raise
 
     @transactional
     def get_pspec(self, group, psname=None, **kwargs):
-- 
2.43.0


From aa4c2d206c746b9f14865d6f65dccbbcf3a3ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 004/137] fix: check a UVPSpec before write_hdf5 removes the
 file it overwrites

---
 src/hera_pspec/uvpspec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index aa5ea7a..ba7b96b 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2077,6 +2077,10 @@ class UVPSpec:
         run_check : bool, optional
             Run UVPSpec validity check before writing to file. Default: True.
         """
+        # Check the object before touching any existing file
+        if run_check:
+            self.check()
+
         # Check output
         if os.path.exists(filepath) and overwrite is False:
             raise OSError(f"{filepath} exists, not overwriting...")
-- 
2.43.0


From dcf413a3dff9766ef5e1004c91858d0ee605cd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 005/137] fix: PSpecContainer makes at most maxiter attempts to
 open its file

---
 src/hera_pspec/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index 1ca922d..ede6053 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -161,6 +161,7 @@ class PSpecContainer:
                 break
             except OSError:
                 # raise Exception if exceeded maxiter
+                Ncount += 1
                 if Ncount >= self.maxiter:
                     if self.mode == "rw":
                         raise OSError(
@@ -174,7 +175,6 @@ class PSpecContainer:
                         raise
 
                 # sleep and try again
-                Ncount += 1
                 time.sleep(self.tsleep)
 
         # Update header info
-- 
2.43.0


From 3d4d3f1ee81853d887b06468a35c826e1c25d9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:12 +0000
Subject: [PATCH 006/137] fix: release the container file if updating its
 header fails

---
 src/hera_pspec/container.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index ede6053..5631c5e 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -179,12 +179,17 @@ class PSpecContainer:
 
         # Update header info
         if self.mode == "rw":
-            # Update header
-            self._update_header()
-
-            # Denote as Container
-            if "pspec_type" not in list(self.data.attrs.keys()):
-                self.data.attrs["pspec_type"] = self.__class__.__name__
+            try:
+                # Update header
+                self._update_header()
+
+                # Denote as Container
+                if "pspec_type" not in list(self.data.attrs.keys()):
+                    self.data.attrs["pspec_type"] = self.__class__.__name__
+            except Exception:
+                # Don't leave the file open if it could not be set up
+                self._close()
+                raise
 
     def _close(self):
         """
-- 
2.43.0


From f3d80e385895515a28e9423bb455ffc5562512dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 007/137] fix: select beam integrals and r_params in
 metadata-only reads too

---
 src/hera_pspec/uvpspec_utils.py | 46 ++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index df7390d..7da89c3 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -931,30 +931,30 @@ def _select(
             uvp.cov_array_real = cov_real
             uvp.cov_array_imag = cov_imag
 
-        # downselect on other attrs
-        if hasattr(uvp, "OmegaP"):
-            uvp.OmegaP = uvp.OmegaP[:, polpair_select]
-            uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
-
-        # select r_params based on new bl_array
-        blp_keys = uvp.get_all_keys()
-        blkeys = []
-        for blpkey in blp_keys:
-            key1 = blpkey[1][0] + (blpkey[2][0],)
-            key2 = blpkey[1][1] + (blpkey[2][1],)
-            if key1 not in blkeys:
-                blkeys += [key1]
-            if key2 not in blkeys:
-                blkeys += [key2]
+    # downselect on other attrs
+    if hasattr(uvp, "OmegaP"):
+        uvp.OmegaP = uvp.OmegaP[:, polpair_select]
+        uvp.OmegaPP = uvp.OmegaPP[:, polpair_select]
+
+    # select r_params based on new bl_array
+    blp_keys = uvp.get_all_keys()
+    blkeys = []
+    for blpkey in blp_keys:
+        key1 = blpkey[1][0] + (blpkey[2][0],)
+        key2 = blpkey[1][1] + (blpkey[2][1],)
+        if key1 not in blkeys:
+            blkeys += [key1]
+        if key2 not in blkeys:
+            blkeys += [key2]
+    new_r_params = {}
+    if hasattr(uvp, "r_params") and uvp.r_params != "":
+        r_params = uvp.get_r_params()
+        for rpkey in r_params:
+            if rpkey in blkeys:
+                new_r_params[rpkey] = r_params[rpkey]
+    else:
         new_r_params = {}
-        if hasattr(uvp, "r_params") and uvp.r_params != "":
-            r_params = uvp.get_r_params()
-            for rpkey in r_params:
-                if rpkey in blkeys:
-                    new_r_params[rpkey] = r_params[rpkey]
-        else:
-            new_r_params = {}
-        uvp.r_params = compress_r_params(new_r_params)
+    uvp.r_params = compress_r_params(new_r_params)
 
 
 def _blpair_to_antnums(blpair):
-- 
2.43.0


From 31964ee0ed3400c04cf4b45ff2c1eb620c1697a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 008/137] fix: count distinct time pairs, not average times,
 when selecting

---
 src/hera_pspec/uvpspec_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 7da89c3..72542ad 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -688,7 +688,7 @@ def _select(
         uvp.lst_1_array = uvp.lst_1_array[blp_select]
         uvp.lst_2_array = uvp.lst_2_array[blp_select]
         uvp.lst_avg_array = uvp.lst_avg_array[blp_select]
-        uvp.Ntpairs = len(np.unique(uvp.time_avg_array))
+        uvp.Ntpairs = len(set(zip(uvp.time_1_array, uvp.time_2_array)))
         uvp.Nblpairs = len(np.unique(uvp.blpair_array))
         uvp.Nbltpairs = len(uvp.blpair_array)
         uvp.Ntimes = uvp.Ntpairs
-- 
2.43.0


From 8386d40e88ade35804e7be7e7f4b49290dafd7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:05 +0000
Subject: [PATCH 009/137] fix: register time_2_array as a UVPSpec parameter

---
 src/hera_pspec/uvpspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index ba7b96b..d05a0af 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -261,7 +261,7 @@ class UVPSpec:
             form="(Nbltpairs,)",
             expected_type=np.float64,
         )
-        self._time_1_array = PSpecParam(
+        self._time_2_array = PSpecParam(
             "time_2_array",
             description="Time array of the second bl in the bl-pair [Julian Date].",
             form="(Nbltpairs,)",
-- 
2.43.0


From f8a910569fd2fab067e81d3eae9971f887839799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 010/137] fix: UVPSpec equality compares every parameter,
 exactly for integers

---
 src/hera_pspec/uvpspec.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index d05a0af..4274409 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2466,24 +2466,36 @@ class UVPSpec:
         """Check equivalence between attributes of two UVPSpec objects"""
         if params is None:
             params = self._all_params
+        # julian dates need a tighter tolerance than the default of isclose
+        jds = ["time_1_array", "time_2_array", "time_avg_array"]
+
+        def arrays_equal(a, b, jd=False):
+            a, b = np.asarray(a), np.asarray(b)
+            if a.shape != b.shape:
+                return False
+            if a.dtype.kind in "fc" or b.dtype.kind in "fc":
+                return np.isclose(a, b, rtol=1e-16 if jd else 1e-5).all()
+            # integers (e.g. baseline-pairs) and strings must match exactly
+            return np.all(a == b)
+
+        def dicts_equal(a, b):
+            return set(a) == set(b) and all(arrays_equal(a[i], b[i]) for i in a)
+
         try:
             for p in params:
-                if p not in self._req_params and (
-                    not hasattr(self, p) and not hasattr(other, p)
-                ):
+                assert hasattr(self, p) == hasattr(other, p)
+                if not hasattr(self, p):
                     continue
+                a, b = getattr(self, p), getattr(other, p)
                 if p in self._immutables:
-                    assert getattr(self, p) == getattr(other, p)
+                    assert a == b
                 elif p in self._ndarrays:
-                    if issubclass(getattr(self, p).dtype.type, str):
-                        assert np.all(getattr(self, p) == getattr(other, p))
-                    else:
-                        assert np.isclose(getattr(self, p), getattr(other, p)).all()
+                    assert arrays_equal(a, b, jd=p in jds)
                 elif p in self._dicts:
-                    for i in getattr(self, p):
-                        assert np.isclose(
-                            getattr(self, p)[i], getattr(other, p)[i]
-                        ).all()
+                    assert dicts_equal(a, b)
+                elif p in self._dicts_of_dicts:
+                    assert set(a) == set(b)
+                    assert all(dicts_equal(a[s], b[s]) for s in a)
 
         except AssertionError:
             if verbose:
-- 
2.43.0


From 27a3de46144fb4df84d9c5baf3a0fe007937d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 011/137] fix: time_to_indices must not match neighbouring
 integrations

---
 src/hera_pspec/uvpspec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 4274409..e26ba7f 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1521,7 +1521,7 @@ class UVPSpec:
             Contains indices at which selection is satisfied along the
             blpairts axis.
         """
-        time_select = np.isclose(self.time_avg_array, time, rtol=1e-10)
+        time_select = np.isclose(self.time_avg_array, time, rtol=1e-16)
         if blpairs is None:
             return np.arange(self.Nbltpairs)[time_select]
         else:
-- 
2.43.0


From 30d190f3d9b07de33b5640e6b83d3585fc798a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:58 +0000
Subject: [PATCH 012/137] fix: polpair_tuple2int honours x_orientation for
 lists

---
 src/hera_pspec/uvpspec_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 72542ad..f2eeb99 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -458,7 +458,7 @@ def polpair_tuple2int(polpair, x_orientation=None):
     """
     # Recursive evaluation
     if isinstance(polpair, (list, np.ndarray)):
-        return [polpair_tuple2int(p) for p in polpair]
+        return [polpair_tuple2int(p, x_orientation=x_orientation) for p in polpair]
 
     # Check types
     assert type(polpair) is tuple, "pol must be a tuple"
-- 
2.43.0


From 639ee1fa36d1da87d274bca5fe79fdc64a1fb863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 013/137] fix: combine_uvpspec identifies rows by baseline-pair
 and both times

---
 src/hera_pspec/uvpspec.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index e26ba7f..b92bec7 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3042,6 +3042,11 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
     ]
     uvp_polpairs = [_uvp.polpair_array.tolist() for _uvp in uvps]
 
+    # row number of each blpair-time in each uvp
+    uvp_blpt_idxs = [
+        {blpt: n for n, blpt in enumerate(_blpts)} for _blpts in uvp_blpts
+    ]
+
     # Store optional attrs only if all uvps have them
     store_cov = np.all([hasattr(uvp, "cov_array_real") for uvp in uvps])
     store_window = np.all([hasattr(uvp, "window_function_array") for uvp in uvps])
@@ -3207,9 +3212,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
             spw_dly_array.extend(np.ones(len(spw_dly_inds), dtype=np.int32) * i)
 
             # Lookup indices of new_blpts in the uvp_blpts[l] array
-            blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
-            if i == 0:
-                blpts_idxs0 = blpts_idxs.copy()
+            blpts_idxs = [uvp_blpt_idxs[l][blpt] for blpt in new_blpts]
 
             # Loop over polarizations
             for k, p in enumerate(new_polpairs):
@@ -3259,7 +3262,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
         # Populate new LST, time, and blpair arrays
         for j, blpt in enumerate(new_blpts):
-            n = blpts_idxs0[j]
+            n = uvp_blpt_idxs[0][blpt]
             u.time_1_array[j] = uvps[0].time_1_array[n]
             u.time_2_array[j] = uvps[0].time_2_array[n]
             u.time_avg_array[j] = uvps[0].time_avg_array[n]
@@ -3331,9 +3334,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
             # Get mapping of blpair-time indices between old UVPSpec objects
             # and the new one
-            blpts_idxs = uvputils._fast_lookup_blpairts(uvp_blpts[l], new_blpts)
-            if k == 0:
-                blpts_idxs0 = blpts_idxs.copy()
+            blpts_idxs = [uvp_blpt_idxs[l][blpt] for blpt in new_blpts]
 
             # Loop over spectral windows
             for i, spw in enumerate(new_spws):
@@ -3370,7 +3371,7 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                     u.label_2_array[i, j, k] = u_lbls[uvps[l].labels[lbl2]]
 
         for j, blpt in enumerate(new_blpts):
-            n = blpts_idxs0[j]
+            n = uvp_blpt_idxs[0][blpt]
             u.time_1_array[j] = uvps[0].time_1_array[n]
             u.time_2_array[j] = uvps[0].time_2_array[n]
             u.time_avg_array[j] = uvps[0].time_avg_array[n]
-- 
2.43.0


From 470e94ee54fe936fe285c5cfb6ec813ec0eed154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 014/137] fix: combine_uvpspec orders frequencies and delays
 like the data

---
 src/hera_pspec/uvpspec.py | 53 +++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index b92bec7..f83e29e 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3123,13 +3123,29 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                     (Nbltpairs, spw[3], Npols), np.complex128
                 )
 
-    # Set frequencies and delays: if concat_ax == 'spw' this is changed below
-    # assumes spw metadata are the same for all uvps
-    u.spw_array = uvps[0].spw_array.copy()
-    u.spw_freq_array = uvps[0].spw_freq_array.copy()
-    u.spw_dly_array = uvps[0].spw_dly_array.copy()
-    u.freq_array = uvps[0].freq_array.copy()
-    u.dly_array = uvps[0].dly_array.copy()
+    # Set frequencies and delays, in the order of new_spws
+    u.spw_array = np.arange(Nspws, dtype=np.int32)
+    freq_array, dly_array = [], []
+    spw_freq_array, spw_dly_array = [], []
+    for i, spw in enumerate(new_spws):
+        # get index of this new spw in uvps and its spw index
+        l = [spw in _u for _u in uvp_spws].index(True)
+        m = [spw == _spw for _spw in uvp_spws[l]].index(True)
+
+        # freq metadata
+        spw_freq_inds = np.where(uvps[l].spw_freq_array == m)[0]
+        freq_array.extend(uvps[l].freq_array[spw_freq_inds])
+        spw_freq_array.extend(np.ones(len(spw_freq_inds), dtype=np.int32) * i)
+
+        # dly metadata
+        spw_dly_inds = np.where(uvps[l].spw_dly_array == m)[0]
+        dly_array.extend(uvps[l].dly_array[spw_dly_inds])
+        spw_dly_array.extend(np.ones(len(spw_dly_inds), dtype=np.int32) * i)
+
+    u.freq_array = np.array(freq_array)
+    u.dly_array = np.array(dly_array)
+    u.spw_freq_array = np.array(spw_freq_array)
+    u.spw_dly_array = np.array(spw_dly_array)
     u.Nfreqs = len(np.unique(u.freq_array))
     u.Nspwfreqs = len(u.spw_freq_array)
     u.Ndlys = len(np.unique(u.dly_array))
@@ -3191,26 +3207,12 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
     # fill in data arrays depending on concat ax
     if concat_ax == "spw":
-        u.spw_array = np.arange(Nspws, dtype=np.int32)
-        freq_array, dly_array = [], []
-        spw_freq_array, spw_dly_array = [], []
-
         # Concatenate spectral windows
         for i, spw in enumerate(new_spws):
             # get index of this new spw in uvps and its spw index
             l = [spw in _u for _u in uvp_spws].index(True)
             m = [spw == _spw for _spw in uvp_spws[l]].index(True)
 
-            # freq metadata
-            spw_freq_inds = np.where(uvps[l].spw_freq_array == m)[0]
-            freq_array.extend(uvps[l].freq_array[spw_freq_inds])
-            spw_freq_array.extend(np.ones(len(spw_freq_inds), dtype=np.int32) * i)
-
-            # dly metadata
-            spw_dly_inds = np.where(uvps[l].spw_dly_array == m)[0]
-            dly_array.extend(uvps[l].dly_array[spw_dly_inds])
-            spw_dly_array.extend(np.ones(len(spw_dly_inds), dtype=np.int32) * i)
-
             # Lookup indices of new_blpts in the uvp_blpts[l] array
             blpts_idxs = [uvp_blpt_idxs[l][blpt] for blpt in new_blpts]
 
@@ -3251,15 +3253,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                                 m
                             ][n, :, q]
 
-        u.freq_array = np.array(freq_array)
-        u.dly_array = np.array(dly_array)
-        u.spw_freq_array = np.array(spw_freq_array)
-        u.spw_dly_array = np.array(spw_dly_array)
-        u.Nfreqs = len(np.unique(u.freq_array))
-        u.Nspwfreqs = len(u.spw_freq_array)
-        u.Ndlys = len(np.unique(u.dly_array))
-        u.Nspwdlys = len(u.spw_dly_array)
-
         # Populate new LST, time, and blpair arrays
         for j, blpt in enumerate(new_blpts):
             n = uvp_blpt_idxs[0][blpt]
-- 
2.43.0


From 1b3f6b9b9b00479d1b5542f006af7335fbe156dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 015/137] fix: combine_uvpspec handles folded spectra

---
 src/hera_pspec/uvpspec.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index f83e29e..c3d4e21 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3089,38 +3089,40 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
 
     # Loop over new spectral windows and setup arrays
     for i, spw in enumerate(new_spws):
+        # number of delays stored: spw[3] leaves out the negative delays if folded
+        l = [spw in _u for _u in uvp_spws].index(True)
+        m = [spw == _spw for _spw in uvp_spws[l]].index(True)
+        Ndlys = uvps[l].data_array[m].shape[1]
         # Initialize new arrays
-        u.data_array[i] = np.empty((Nbltpairs, spw[3], Npols), np.complex128)
+        u.data_array[i] = np.empty((Nbltpairs, Ndlys, Npols), np.complex128)
         u.integration_array[i] = np.empty((Nbltpairs, Npols), np.float64)
         u.wgt_array[i] = np.empty((Nbltpairs, spw[2], 2, Npols), np.float64)
         # spw[2] == Nfreqs (wgt_array is not resampled if Ndlys != Nfreqs,
         # so needs to keep this shape)
         u.nsample_array[i] = np.empty((Nbltpairs, Npols), np.float64)
         if store_window:
-            l = [spw in _u for _u in uvp_spws].index(True)
-            m = [spw == _spw for _spw in uvp_spws[l]].index(True)
             if exact_windows:
                 Nkperp = uvps[l].window_function_kperp[m][:, 0].size
                 Nkpara = uvps[l].window_function_kpara[m][:, 0].size
                 u.window_function_array[i] = np.empty(
-                    (Nbltpairs, spw[3], Nkperp, Nkpara, Npols), np.float64
+                    (Nbltpairs, Ndlys, Nkperp, Nkpara, Npols), np.float64
                 )
             else:
                 Nkpar = uvps[l].window_function_array[m].shape[2]
                 u.window_function_array[i] = np.empty(
-                    (Nbltpairs, spw[3], Nkpar, Npols), np.float64
+                    (Nbltpairs, Ndlys, Nkpar, Npols), np.float64
                 )
         if store_cov:
             u.cov_array_real[i] = np.empty(
-                (Nbltpairs, spw[3], spw[3], Npols), np.float64
+                (Nbltpairs, Ndlys, Ndlys, Npols), np.float64
             )
             u.cov_array_imag[i] = np.empty(
-                (Nbltpairs, spw[3], spw[3], Npols), np.float64
+                (Nbltpairs, Ndlys, Ndlys, Npols), np.float64
             )
         if store_stats:
             for stat in stored_stats:
                 u.stats_array[stat][i] = np.empty(
-                    (Nbltpairs, spw[3], Npols), np.complex128
+                    (Nbltpairs, Ndlys, Npols), np.complex128
                 )
 
     # Set frequencies and delays, in the order of new_spws
-- 
2.43.0


From 2b692afe9aeb8a818362c565a7908a123f498513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 016/137] fix: combine_uvpspec keeps the k bins of exact window
 functions

---
 src/hera_pspec/uvpspec.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index c3d4e21..d5d3eb7 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3107,6 +3107,20 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                 u.window_function_array[i] = np.empty(
                     (Nbltpairs, Ndlys, Nkperp, Nkpara, Npols), np.float64
                 )
+                u.window_function_kperp[i] = np.empty((Nkperp, Npols), np.float64)
+                u.window_function_kpara[i] = np.empty((Nkpara, Npols), np.float64)
+                for k, p in enumerate(new_polpairs):
+                    l = [
+                        spw in _spws and p in _pols
+                        for _spws, _pols in zip(uvp_spws, uvp_polpairs)
+                    ].index(True)
+                    m, q = uvp_spws[l].index(spw), uvp_polpairs[l].index(p)
+                    u.window_function_kperp[i][:, k] = uvps[l].window_function_kperp[m][
+                        :, q
+                    ]
+                    u.window_function_kpara[i][:, k] = uvps[l].window_function_kpara[m][
+                        :, q
+                    ]
             else:
                 Nkpar = uvps[l].window_function_array[m].shape[2]
                 u.window_function_array[i] = np.empty(
-- 
2.43.0


From ad76d4c53a5aad9bde8e5c7bc0ce347fb8b9bd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 017/137] fix: combine_uvpspec combines beam integrals along
 polarization

---
 src/hera_pspec/uvpspec.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index d5d3eb7..881ef58 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3419,6 +3419,14 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
     for k in static_meta.keys():
         setattr(u, k, static_meta[k])
 
+    # beam integrals have a polarization axis
+    for k in ["OmegaP", "OmegaPP"]:
+        if hasattr(uvps[0], k):
+            omegas = {}
+            for _uvp, _polpairs in zip(uvps, uvp_polpairs):
+                omegas.update(zip(_polpairs, getattr(_uvp, k).T))
+            setattr(u, k, np.array([omegas[p] for p in new_polpairs]).T)
+
     # Run check to make sure the new UVPSpec object is valid
     u.check()
 
@@ -3533,9 +3541,7 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
         "channel_width",
         "telescope_location",
         "weighting",
-        "OmegaP",
         "beam_freqs",
-        "OmegaPP",
         "beamfile",
         "norm",
         "taper",
@@ -3556,6 +3562,19 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
                     f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
                 )
 
+    # beam integrals are stored per polarization-pair: shared ones must agree
+    for m in ["OmegaP", "OmegaPP"]:
+        assert len(set(hasattr(u, m) for u in uvps)) == 1, (
+            f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
+        )
+        omegas = {}
+        for u in uvps:
+            for i, p in enumerate(u.polpair_array if hasattr(u, m) else []):
+                omega = omegas.setdefault(p, getattr(u, m)[:, i])
+                assert np.allclose(omega, getattr(u, m)[:, i]), (
+                    f"Cannot concatenate UVPSpec objs: not all agree on '{m}' attribute"
+                )
+
     # get static metadata values
     static_meta = dict(
         [
-- 
2.43.0


From ddffd1ee06777527d57eae3898bd8300dca6684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 018/137] fix: compare normalisation scalars by window and
 polarization when combining

---
 src/hera_pspec/uvpspec.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 881ef58..6c8cf14 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3669,13 +3669,15 @@ def get_uvp_overlap(uvps, just_meta=True, verbose=True):
 
     # perform additional checks given concat ax
     if concat_ax == "blpairts":
-        # check scalar_array
-        assert np.all(
-            [np.isclose(uvps[0].scalar_array, u.scalar_array) for u in uvps[1:]]
-        ), (
-            "scalar_array must be the same for all uvps given "
-            "concatenation along blpairts."
-        )
+        # check scalar_array, whatever the order of the spws and polpairs
+        scalars = {}
+        for u in uvps:
+            for spw, row in zip(u.get_spw_ranges(), u.scalar_array):
+                for p, scalar in zip(u.polpair_array, row):
+                    assert np.isclose(scalars.setdefault((spw, p), scalar), scalar), (
+                        "scalar_array must be the same for all uvps given "
+                        "concatenation along blpairts."
+                    )
 
     return uvps, concat_ax, unique_spws, unique_blpts, unique_polpairs, static_meta
 
-- 
2.43.0


From e328d8dbea38da38d35d675fa7205212daeba259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:42 +0000
Subject: [PATCH 019/137] fix: average_spectra honours non-integer
 baseline-pair weights

The normalised weights were truncated to integers, so that e.g. weights (1, 2)
dropped the first baseline-pair, and (0.1, 0.1, 0.1) dropped them all.
---
 src/hera_pspec/grouping.py | 51 +++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 26 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index c26d9ba..d23d131 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -514,34 +514,33 @@ def average_spectra(
                         # Above we use the clip method for zero weights. A tolerance
                         # as low as 1e-40 works when using inverse square of noise power
                         # as weights.
-                    # Add multiple copies of data for each baseline according
-                    # to the weighting/multiplicity;
-                    # while multiple copies are only added when bootstrap resampling
-                    for m in range(int(blpg_wgts[k])):
-                        bpg_data.append(data * w)
-                        bpg_wgts.append(wgts * w[:, :1, None])
-                        bpg_ints.append(ints * w)
-                        bpg_nsmp.append(nsmp)
-                        for stat in stat_l:
-                            # clip errws for same reason above
-                            bpg_stats[stat].append(errws[stat].clip(0, 1e40) * w**2)
-                        if store_window:
-                            if uvp.exact_windows:
-                                bpg_window_function.append(
-                                    window_function * w[:, :, None, None]
-                                )
-                            else:
-                                bpg_window_function.append(
-                                    window_function * w[:, :, None]
-                                )
-                        if store_cov:
-                            bpg_cov_real.append(
-                                cov_real * w[:, :, None] * w[:, None, :]
+                    # Add data for each baseline, multiplied by its relative
+                    # weight (e.g. its multiplicity when bootstrap resampling)
+                    m = blpg_wgts[k]
+                    bpg_data.append(m * data * w)
+                    bpg_wgts.append(m * wgts * w[:, :1, None])
+                    bpg_ints.append(m * ints * w)
+                    bpg_nsmp.append(m * nsmp)
+                    for stat in stat_l:
+                        # clip errws for same reason above
+                        bpg_stats[stat].append(m * errws[stat].clip(0, 1e40) * w**2)
+                    if store_window:
+                        if uvp.exact_windows:
+                            bpg_window_function.append(
+                                m * window_function * w[:, :, None, None]
                             )
-                            bpg_cov_imag.append(
-                                cov_imag * w[:, :, None] * w[:, None, :]
+                        else:
+                            bpg_window_function.append(
+                                m * window_function * w[:, :, None]
                             )
-                        w_list.append(w)
+                    if store_cov:
+                        bpg_cov_real.append(
+                            m * cov_real * w[:, :, None] * w[:, None, :]
+                        )
+                        bpg_cov_imag.append(
+                            m * cov_imag * w[:, :, None] * w[:, None, :]
+                        )
+                    w_list.append(m * w)
 
                 # normalize sum: clip to deal with w_list_sum == 0
                 w_list_sum = np.sum(w_list, axis=0).clip(1e-40, np.inf)
-- 
2.43.0


From 2418f03d287111b903689a70364a07a729edc084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 020/137] fix: average_spectra applies no normalization when
 normalize_weights is False

---
 src/hera_pspec/grouping.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index d23d131..a13f383 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -398,15 +398,16 @@ def average_spectra(
                 # calculated so that Sum (blpair wgts) = no. baselines.
                 if blpair_weights is not None:
                     blpg_wgts = np.array(blpair_weights[j])
-                    norm = np.sum(blpg_wgts) if normalize_weights else 1.0
+                    norm = np.sum(blpg_wgts)
 
                     if norm <= 0.0:
                         raise ValueError(
                             "Sum of baseline-pair weights in group %d is <= 0." % j
                         )
-                    blpg_wgts = (
-                        blpg_wgts * float(blpg_wgts.size) / norm
-                    )  # Apply normalization
+                    if normalize_weights:
+                        blpg_wgts = (
+                            blpg_wgts * float(blpg_wgts.size) / norm
+                        )  # Apply normalization
                 else:
                     blpg_wgts = np.ones(len(blpg))
 
-- 
2.43.0


From a45db75ef18281bd6c941fe218882549aa93c1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 021/137] fix: average_spectra keeps the dataset labels aligned
 with the averaged spectra

---
 src/hera_pspec/grouping.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index a13f383..169a601 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -621,10 +621,12 @@ def average_spectra(
     time_1, time_2, time_avg_arr = [], [], []
     lst_1, lst_2, lst_avg_arr = [], [], []
     blpair_arr, bl_arr = [], []
+    label_idx = []
 
     for i, blpg in enumerate(blpair_groups):
         # Get blpairts indices for zeroth blpair in this group
         blpairts = uvp.blpair_to_indices(blpg[0])
+        label_idx.extend(blpairts[:1] if time_avg else blpairts)
 
         # Assign meta-data
         bl_arr.extend(list(uvputils._blpair_to_bls(blpg[0])))
@@ -677,6 +679,10 @@ def average_spectra(
     uvp.lst_2_array = np.array(lst_2)
     uvp.lst_avg_array = np.array(lst_avg_arr)
 
+    # Dataset labels
+    uvp.label_1_array = uvp.label_1_array[:, label_idx]
+    uvp.label_2_array = uvp.label_2_array[:, label_idx]
+
     # Data, weights, and no. samples
     uvp.data_array = data_array
     uvp.integration_array = ints_array
-- 
2.43.0


From 0903246446f6aa6d6761d4f00e51477ba56c8ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 022/137] fix: average_spectra normalises averaged exact window
 functions

---
 src/hera_pspec/grouping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 169a601..f6836b4 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -568,7 +568,10 @@ def average_spectra(
                     bpg_stats[stat] = np.sqrt(stat_avg)
                 if store_window:
                     if uvp.exact_windows:
-                        bpg_window_function = np.sum(bpg_window_function, axis=0)
+                        bpg_window_function = (
+                            np.sum(bpg_window_function, axis=0)
+                            / w_list_sum[:, :, None, None]
+                        )
                     else:
                         bpg_window_function = (
                             np.sum(bpg_window_function, axis=0) / w_list_sum[:, :, None]
-- 
2.43.0


From 547c8782264ea714a7afa78f2e026dc5c6424cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:30 +0000
Subject: [PATCH 023/137] fix: average_spectra keeps small error bars

An absolute tolerance of 1e-8 turned every averaged variance below it into an
infinite error bar, whatever the units of the power spectrum.
---
 src/hera_pspec/grouping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index f6836b4..a1498cd 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -509,8 +509,8 @@ def average_spectra(
                             errws[stat] = (np.sum(weighted_errws, axis=0) / wsum**2)[
                                 None
                             ]
-                            # set near-zero errws to inf, as they should be
-                            errws[stat][np.isclose(errws[stat], 0)] = np.inf
+                            # set zero errws to inf, as they should be
+                            errws[stat][errws[stat] == 0] = np.inf
                         w = np.sum(w, axis=0)[None]
                         # Above we use the clip method for zero weights. A tolerance
                         # as low as 1e-40 works when using inverse square of noise power
@@ -562,8 +562,8 @@ def average_spectra(
                     )
                 for stat in stat_l:
                     stat_avg = np.sum(bpg_stats[stat], axis=0) / w_list_sum**2
-                    # set near-zero stats to inf, as they should be
-                    stat_avg[np.isclose(stat_avg, 0)] = np.inf
+                    # set zero stats to inf, as they should be
+                    stat_avg[stat_avg == 0] = np.inf
                     # take sqrt to get back to stat units
                     bpg_stats[stat] = np.sqrt(stat_avg)
                 if store_window:
-- 
2.43.0


From 3c916e368bd49e85f2a8b1756e88b2cd06e89002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 024/137] fix: folding leaves zero power at negative delays

With statistics present the negative-delay power was overwritten with NaN
where the discarded half of the statistic was meant.
---
 src/hera_pspec/grouping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index a1498cd..cf76a83 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1538,7 +1538,7 @@ def fold_spectra(uvp):
                     uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
                         np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
                     ) ** (-0.5)
-                    uvp.data_array[spw][:, : Ndlys // 2, :] = np.nan
+                    uvp.stats_array[stat][spw][:, : Ndlys // 2, :] = np.nan
 
         else:
             # odd number of dlys
@@ -1623,7 +1623,7 @@ def fold_spectra(uvp):
                     uvp.stats_array[stat][spw][:, Ndlys // 2 + 1 :, :] = (
                         np.sum([1.0 / left**2.0, 1.0 / right**2.0], axis=0)
                     ) ** (-0.5)
-                    uvp.data_array[spw][:, : Ndlys // 2, :] = np.nan
+                    uvp.stats_array[stat][spw][:, : Ndlys // 2, :] = np.nan
 
     uvp.folded = True
 
-- 
2.43.0


From 90a0b31c330d9a0bc10bb6fe49b2d3fb2601a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:23 +0000
Subject: [PATCH 025/137] fix: get_window_function returns whole exact window
 functions of folded spectra

---
 src/hera_pspec/uvpspec.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 6c8cf14..61d1cbb 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -667,6 +667,11 @@ class UVPSpec:
         # if data has been folded, return only positive delays
         if self.folded:
             Ndlys = np.count_nonzero(self.spw_dly_array == spw)
+            if self.exact_windows:
+                # exact window functions are only folded along the delay axis
+                return self.window_function_array[spw][
+                    blpairts, -(Ndlys - Ndlys // 2 - 1) :, ..., polpair
+                ]
             return self.window_function_array[spw][
                 blpairts,
                 -(Ndlys - Ndlys // 2 - 1) :,
-- 
2.43.0


From 58521d1a27bec8d286cb10f27fb71f05a535983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 026/137] fix: drop cached matrices when the spectral window
 changes

---
 src/hera_pspec/pspecdata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 9eab887..8f3b8b5 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -293,6 +293,9 @@ class PSpecData:
 
         # Store the actual frequencies
         self.freqs = self.dsets[0].freq_array
+        if self.spw_range != (0, self.Nfreqs):
+            # cached matrices belong to the old spectral window
+            self.clear_cache()
         self.spw_range = (0, self.Nfreqs)
         self.spw_Nfreqs = self.Nfreqs
         self.spw_Ndlys = self.spw_Nfreqs
@@ -1345,6 +1348,9 @@ class PSpecData:
         assert isinstance(spw_range[0], (int, np.integer)), (
             "spw_range must be fed as len-2 integer tuple"
         )
+        if spw_range != self.spw_range:
+            # cached matrices belong to the old spectral window
+            self.clear_cache()
         self.spw_range = spw_range
         self.spw_Nfreqs = spw_range[1] - spw_range[0]
         self.set_Ndlys(ndlys=ndlys)
-- 
2.43.0


From 93a873ae62acb29fa9d82454d20ae991527f6731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 027/137] fix: drop cached R matrices when the taper symmetry,
 filter extension or filter parameters change

---
 src/hera_pspec/pspecdata.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 8f3b8b5..fcf6d10 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1224,6 +1224,9 @@ class PSpecData:
                 "You cannot use a symmetric taper when there are nonzero filter extensions."
             )
         else:
+            if use_symmetric_taper != self.symmetric_taper:
+                # cached R matrices hold the old taper
+                self._R = {}
             self.symmetric_taper = use_symmetric_taper
 
     def set_filter_extension(self, filter_extension):
@@ -1245,7 +1248,7 @@ class PSpecData:
             raise_warning(
                 "You cannot set filter extensions greater then zero when symmetric_taper==True! Setting symmetric_taper==False!"
             )
-            self.symmetric_taper = False
+            self.set_symmetric_taper(False)
         assert isinstance(filter_extension, (list, tuple)), (
             "filter_extension must a tuple or list"
         )
@@ -1271,6 +1274,9 @@ class PSpecData:
         filter_extension[1] = np.min(
             [self.Nfreqs - self.spw_range[1], filter_extension[1]]
         )  # clip extension to not extend beyond data range
+        if tuple(filter_extension) != self.filter_extension:
+            # cached matrices have the shape of the old extended window
+            self.clear_cache()
         self.filter_extension = tuple(filter_extension)
 
     def set_weighting(self, data_weighting):
@@ -1317,6 +1323,10 @@ class PSpecData:
         """
         key = self.parse_blkey(key)
         key = (self.data_weighting,) + key
+        if self.r_params.get(key) != r_params:
+            # cached R matrices were made with the old parameters
+            for Rkey in [k for k in self._R if k[:3] == key[1:] + key[:1]]:
+                del self._R[Rkey]
         self.r_params[key] = r_params
 
     def set_taper(self, taper):
-- 
2.43.0


From 364cac26af4e24daee20c698cdce554916b5eb92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 028/137] fix: switch off the symmetric taper for one-sided
 filter extensions too

---
 src/hera_pspec/pspecdata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index fcf6d10..37f047e 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1242,8 +1242,7 @@ class PSpecData:
         """
         if (
             self.symmetric_taper
-            and not filter_extension[0] == 0
-            and not filter_extension[1] == 0
+            and not (filter_extension[0] == 0 and filter_extension[1] == 0)
         ):
             raise_warning(
                 "You cannot set filter extensions greater then zero when symmetric_taper==True! Setting symmetric_taper==False!"
-- 
2.43.0


From 3c331c24d5a88ace4381d8373111a4579b430d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 029/137] fix: drop cached matrices when the datasets are
 edited in place

---
 src/hera_pspec/pspecdata.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 37f047e..cd6ed67 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4340,6 +4340,8 @@ class PSpecData:
         # assign dsets
         if inplace:
             dsets = self.dsets
+            # cached covariances were computed from the unphased data
+            self.clear_cache()
         else:
             dsets = copy.deepcopy(self.dsets)
 
@@ -4456,6 +4458,9 @@ class PSpecData:
         for p in pols:
             factors[p] = beam.Jy_to_mK(self.freqs, pol=p)
 
+        # cached covariances were computed from the unconverted data
+        self.clear_cache()
+
         # iterate over datasets and apply factor
         for i, dset in enumerate(self.dsets):
             # check dset vis units
@@ -4504,6 +4509,9 @@ class PSpecData:
             else:
                 common_lsts = common_lsts.intersection(set(lsts))
 
+        # cached weights and covariances belong to the untrimmed data
+        self.clear_cache()
+
         # iterate through dsets and trim off integrations whose lst isn't
         # in common_lsts
         for i, dset in enumerate(self.dsets):
-- 
2.43.0


From 48a9a85c78ed7c05cb5cf48b584aae73ecfcc84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 030/137] fix: clip the filter extension to the data range when
 the spectral window moves

---
 src/hera_pspec/pspecdata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index cd6ed67..d774735 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -297,6 +297,7 @@ class PSpecData:
             # cached matrices belong to the old spectral window
             self.clear_cache()
         self.spw_range = (0, self.Nfreqs)
+        self.filter_extension = (0, 0)
         self.spw_Nfreqs = self.Nfreqs
         self.spw_Ndlys = self.spw_Nfreqs
 
@@ -1253,8 +1254,8 @@ class PSpecData:
         )
         assert len(filter_extension) == 2, "filter extension must be length 2"
         assert (
-            isinstance(filter_extension[0], int)
-            and isinstance(filter_extension[1], int)
+            isinstance(filter_extension[0], (int, np.integer))
+            and isinstance(filter_extension[1], (int, np.integer))
             and filter_extension[0] >= 0
             and filter_extension[1] >= 0
         ), "filter extension must contain only positive integers"
@@ -1361,6 +1362,9 @@ class PSpecData:
             # cached matrices belong to the old spectral window
             self.clear_cache()
         self.spw_range = spw_range
+        if sum(self.filter_extension) > 0:
+            # clip the extension to the data range around the new window
+            self.set_filter_extension(self.filter_extension)
         self.spw_Nfreqs = spw_range[1] - spw_range[0]
         self.set_Ndlys(ndlys=ndlys)
 
-- 
2.43.0


From 92221f8ab608332c51ffdf05df33269a23dc02d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 031/137] fix: V^-1/2 normalization uses the Hermitian root of
 the covariance

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index d774735..a4500e0 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2614,7 +2614,7 @@ class PSpecData:
                 eigvals = eigvals[~nonpos_eigvals]
                 eigvects = eigvects[:, ~nonpos_eigvals]
             V_minus_half = np.dot(
-                eigvects, np.dot(np.diag(1.0 / np.sqrt(eigvals)), eigvects.T)
+                eigvects, np.dot(np.diag(1.0 / np.sqrt(eigvals)), eigvects.conj().T)
             )
 
             W_norm = np.diag(1.0 / np.sum(np.dot(V_minus_half, H), axis=1))
-- 
2.43.0


From c30c97de28422b4703a90fac0692a0ca869c8367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 032/137] fix: analytic covariances are uniform only if every
 time and both baselines agree

---
 src/hera_pspec/pspecdata.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index a4500e0..4e442d0 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2160,7 +2160,8 @@ class PSpecData:
             Bandpower covariance, with dimension (Ntimes, spw_Ndlys, spw_Ndlys).
         """
         # Collect all the relevant pieces
-        if M.ndim == 2:
+        uniform_M = M.ndim == 2
+        if uniform_M:
             M = np.asarray([M for time in range(self.Ntimes)])
         # M has a shape of (Ntimes, spw_Ndlys,spw_Ndlys)
         E_matrices = self.get_unnormed_E(key1, key2, exact_norm=exact_norm, pol=pol)
@@ -2187,17 +2188,22 @@ class PSpecData:
         if model != "foreground_dependent":
             # When model is 'foreground_dependent', since we are processing the outer products of visibilities from different times,
             # we are expected to have time-dependent inputs, thus check_uniform_input is always set to be False here.
-            C11_first = self.C_model(
-                key1, model=model, known_cov=known_cov, time_index=0
-            )
-            C11_last = self.C_model(
-                key1,
-                model=model,
-                known_cov=known_cov,
-                time_index=self.dsets[0].Ntimes - 1,
+            # the empirical covariance is averaged over time, so it never depends on time
+            check_uniform_input = uniform_M and (
+                (model == "empirical" and known_cov is None)
+                or all(
+                    np.array_equal(
+                        self.C_model(
+                            key, model=model, known_cov=known_cov, time_index=0
+                        ),
+                        self.C_model(
+                            key, model=model, known_cov=known_cov, time_index=time_index
+                        ),
+                    )
+                    for time_index in range(1, self.dsets[0].Ntimes)
+                    for key in (key1, key2)
+                )
             )
-            if np.isclose(C11_first, C11_last).all():
-                check_uniform_input = True
 
         cov_q_real, cov_q_imag, cov_p_real, cov_p_imag = [], [], [], []
         for time_index in range(self.dsets[0].Ntimes):
-- 
2.43.0


From e0a378b4ed3f3733f0bd1c33a678a95c4e622f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 033/137] fix: do not drop small but non-zero terms of analytic
 covariances

---
 src/hera_pspec/pspecdata.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 4e442d0..c26dcd2 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2379,7 +2379,7 @@ class PSpecData:
                     time_index=time_index,
                 )
                 # Get q_q, q_qdagger, qdagger_qdagger
-                if np.isclose(P22, 0).all() or np.isclose(S11, 0).all():
+                if not np.any(P22) or not np.any(S11):
                     q_q = 0.0 + 1.0j * 0
                 else:
                     E12P22 = np.matmul(E_matrices, P22)
@@ -2387,7 +2387,7 @@ class PSpecData:
                     q_q = np.einsum(
                         "bij, cji->bc", E12P22, E21starS11, optimize=einstein_path_0
                     )
-                if np.isclose(C21, 0).all():
+                if not np.any(C21):
                     q_q += 0.0 + 1.0j * 0
                 else:
                     E12C21 = np.matmul(E_matrices, C21)
@@ -2399,7 +2399,7 @@ class PSpecData:
                 q_qdagger = np.einsum(
                     "bij, cji->bc", E12C22, E21C11, optimize=einstein_path_0
                 )
-                if np.isclose(P21, 0).all() or np.isclose(S21, 0).all():
+                if not np.any(P21) or not np.any(S21):
                     q_qdagger += 0.0 + 1.0j * 0
                 else:
                     E12P21 = np.matmul(E_matrices, P21)
@@ -2407,14 +2407,14 @@ class PSpecData:
                     q_qdagger += np.einsum(
                         "bij, cji->bc", E12P21, E12starS21, optimize=einstein_path_0
                     )
-                if np.isclose(C12, 0).all():
+                if not np.any(C12):
                     qdagger_qdagger = 0.0 + 1.0j * 0
                 else:
                     E21C12 = np.matmul(np.transpose(E_matrices.conj(), (0, 2, 1)), C12)
                     qdagger_qdagger = np.einsum(
                         "bij, cji->bc", E21C12, E21C12, optimize=einstein_path_0
                     )
-                if np.isclose(P11, 0).all() or np.isclose(S22, 0).all():
+                if not np.any(P11) or not np.any(S22):
                     qdagger_qdagger += 0.0 + 1.0j * 0
                 else:
                     E21P11 = np.matmul(np.transpose(E_matrices.conj(), (0, 2, 1)), P11)
@@ -2432,7 +2432,7 @@ class PSpecData:
 
             m = M[time_index]
             # calculate \sum_{bd} [ M_{ab} M_{cd} (<q_b q_d> - <q_b><q_d>) ]
-            if np.isclose([q_q], 0).all():
+            if not np.any(q_q):
                 MMq_q = np.zeros((E_matrices.shape[0], E_matrices.shape[0])).astype(
                     np.complex128
                 )
@@ -2443,7 +2443,7 @@ class PSpecData:
                 MMq_q = np.einsum("ab,cd,bd->ac", m, m, q_q, optimize=einstein_path_2)
             # calculate \sum_{bd} [ M_{ab} M_{cd}^* (<q_b q_d^\dagger> - <q_b><q_d^\dagger>) ]
             # and \sum_{bd} [ M_{ab}^* M_{cd} (<q_b^\dagger q_d> - <q_b^\dagger><q_d>) ]
-            if np.isclose([q_qdagger], 0).all():
+            if not np.any(q_qdagger):
                 MM_q_qdagger = 0.0 + 1.0j * 0
                 M_Mq_qdagger_ = 0.0 + 1.0j * 0
             else:
@@ -2461,7 +2461,7 @@ class PSpecData:
                     optimize=einstein_path_2,
                 )
             # calculate \sum_{bd} [ M_{ab}^* M_{cd}^* (<q_b^\dagger q_d^\dagger> - <q_b^\dagger><q_d^\dagger>) ]
-            if np.isclose([qdagger_qdagger], 0).all():
+            if not np.any(qdagger_qdagger):
                 M_M_qdagger_qdagger = 0.0 + 1.0j * 0
             else:
                 assert np.shape(qdagger_qdagger) == np.shape(m), (
-- 
2.43.0


From 2c5ee3bbba11b48f4f5e0a0bb6822a7d62701b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 034/137] fix: exact normalization weights Q, not Q R, in
 get_unnormed_E

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index c26dcd2..cc0b3c2 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1870,7 +1870,7 @@ class PSpecData:
             del_tau = np.median(np.diff(self.delays())) * 1e-9
         for dly_idx in range(self.spw_Ndlys):
             if exact_norm:
-                QR2 = del_tau * integral_beam * np.dot(self.get_Q_alt(dly_idx), R2)
+                QR2 = np.dot(del_tau * integral_beam * self.get_Q_alt(dly_idx), R2)
             else:
                 QR2 = np.dot(self.get_Q_alt(dly_idx), R2)
             E_matrices[dly_idx] = np.dot(np.conj(R1).T, QR2)
-- 
2.43.0


From f4a4a95be35a1e28edbb97666ac6a56ef1528958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 035/137] fix: PSpecData.scalar honours taper_override

---
 src/hera_pspec/pspecdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index cc0b3c2..9e80691 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3115,7 +3115,7 @@ class PSpecData:
                 end,
                 len(freqs),
                 pol=pol,
-                taper=self.taper,
+                taper=taper,
                 little_h=little_h,
                 num_steps=num_steps,
                 exact_norm=exact_norm,
@@ -3126,7 +3126,7 @@ class PSpecData:
                 end,
                 len(freqs),
                 pol=pol,
-                taper=self.taper,
+                taper=taper,
                 little_h=little_h,
                 num_steps=num_steps,
                 exact_norm=exact_norm,
-- 
2.43.0


From 822dcc6fbd87536c6e2d74fe0da35f75f41662a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 036/137] fix: stored weights cover the spectral window, not
 its filter extension

---
 src/hera_pspec/pspecdata.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 9e80691..be068bb 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4091,8 +4091,15 @@ class PSpecData:
                     pol_ints.extend(pol_integ)
 
                     # combined weight is geometric mean
+                    # (of the window itself, without any filter extension)
+                    window = slice(
+                        self.filter_extension[0],
+                        self.filter_extension[0] + self.spw_Nfreqs,
+                    )
                     pol_wgts.extend(
-                        np.concatenate([wgts1[:, :, None], wgts2[:, :, None]], axis=2)
+                        np.concatenate(
+                            [wgts1[:, window, None], wgts2[:, window, None]], axis=2
+                        )
                     )
 
                     # insert time and blpair info only once per blpair
-- 
2.43.0


From d7d32221cd8250474bb315bd0bc5a18b704f0cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:42 +0000
Subject: [PATCH 037/137] fix: cov_q_hat refuses a time index past the end

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index be068bb..a0d5165 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1464,7 +1464,7 @@ class PSpecData:
             assert isinstance(key1, list), "key2 is a list, key1 must be a list"
         # check time_indices
         for tind in time_indices:
-            if not (tind >= 0 and tind <= self.Ntimes):
+            if not (tind >= 0 and tind < self.Ntimes):
                 raise ValueError("Invalid time index provided.")
 
         if not isinstance(key1, list):
-- 
2.43.0


From ec64b18bb8046b720e76543767166d82657d0cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 038/137] fix: pspec records times and baseline-pairs when the
 first polarization pair is skipped

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index a0d5165..5717fe5 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4103,7 +4103,7 @@ class PSpecData:
                     )
 
                     # insert time and blpair info only once per blpair
-                    if i < 1 and j < 1:
+                    if i < 1 and len(spw_polpair) == 1:
                         # insert time info
                         # inds is a slice if dset1 has rectangular blts.
                         inds1 = dset1.antpair2ind(bl1, ordered=False)
-- 
2.43.0


From 21f5f7f928944ca2ddf214e0da2f33297eb25fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 039/137] fix: do not reuse exactly normalized response
 matrices of another polarization

---
 src/hera_pspec/pspecdata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 5717fe5..b2b6c08 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3883,8 +3883,11 @@ class PSpecData:
                         )
 
                         # Second: check cache for Y
+                        # (with exact_norm, G and H depend on the beam polarization too)
                         matches = [
-                            np.isclose(Y, y).all() for y in self._identity_Y.values()
+                            np.isclose(Y, y).all()
+                            and (not exact_norm or _key1[-1] == p_str[0])
+                            for (_key1, _), y in self._identity_Y.items()
                         ]
                         if True in matches:
                             # This Y exists, so pick appropriate G and H and continue
-- 
2.43.0


From 8a85c119a6c16bd33192e0ba569f3b14819e5d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:55 +0000
Subject: [PATCH 040/137] fix: a filter extension in one window does not change
 the taper of the next

---
 src/hera_pspec/pspecdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index b2b6c08..cb1cebe 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3731,6 +3731,8 @@ class PSpecData:
             # set spectral range
             logger.info(f"\nSetting spectral range: {spw_ranges[i]}")
             self.set_spw(spw_ranges[i], ndlys=n_dlys[i])
+            # a filter extension in another window may have switched this off
+            self.set_symmetric_taper(symmetric_taper)
             self.set_filter_extension(filter_extensions[i])
 
             # clear covariance cache
-- 
2.43.0


From 887de67b36f5773b62431c6e107fa92f7591dbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 041/137] fix: pspec does not inherit a filter extension left
 on the object

---
 src/hera_pspec/pspecdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index cb1cebe..8e21a73 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -3564,6 +3564,8 @@ class PSpecData:
         """
         # set taper and data weighting
         self.set_taper(taper)
+        # an earlier call may have left a filter extension behind
+        self.set_filter_extension((0, 0))
         self.set_symmetric_taper(symmetric_taper)
         self.set_weighting(input_data_weight)
 
-- 
2.43.0


From 68e35a3da8541862cb1374b853012b0cdb56edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 042/137] fix: pspec stores the history text it is given

---
 src/hera_pspec/pspecdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 8e21a73..270e3b1 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4278,6 +4278,8 @@ class PSpecData:
                 "-" * 20,
             )
         )
+        if history:
+            uvp.history += history
 
         if self.primary_beam is not None:
             # attach cosmology
-- 
2.43.0


From fecacdd35b2aca82a3ae26aea1e6da66917a4f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:12 +0000
Subject: [PATCH 043/137] fix: broadcast_dset_flags treats each spectral window
 on its own

---
 src/hera_pspec/pspecdata.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 270e3b1..f604510 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2939,8 +2939,9 @@ class PSpecData:
                     for bl in ubl:
                         # get baseline-times indices
                         bl_inds = np.where(np.isin(dset.baseline_array, bl))[0]
-                        # get flag waterfall
-                        flags = dset.flag_array[bl_inds, :, i].copy()
+                        # get flag waterfall of this spectral window
+                        spw_slice = slice(self.spw_range[0], self.spw_range[1])
+                        flags = dset.flag_array[bl_inds, spw_slice, i].copy()
                         Ntimes = float(flags.shape[0])
                         Nfreqs = float(flags.shape[1])
                         # get time- and freq-continguous flags
@@ -2954,17 +2955,15 @@ class PSpecData:
                         )
                         # flag channels for all times that exceed time_thresh
                         dset.flag_array[
-                            bl_inds, np.where(exceeds_thresh)[0][:, None], i
+                            bl_inds,
+                            self.spw_range[0] + np.where(exceeds_thresh)[0][:, None],
+                            i,
                         ] = True
                         # for pixels that have flags but didn't meet broadcasting limit
                         # flag the integration within the spw
                         flags[:, np.where(exceeds_thresh)[0]] = False
-                        flag_ints = np.max(
-                            flags[:, self.spw_range[0] : self.spw_range[1]], axis=1
-                        )
-                        dset.flag_array[
-                            bl_inds[flag_ints], self.spw_range[0] : self.spw_range[1], i
-                        ] = True
+                        flag_ints = np.max(flags, axis=1)
+                        dset.flag_array[bl_inds[flag_ints], spw_slice, i] = True
 
     def units(self, little_h=True):
         r"""
-- 
2.43.0


From 323d919bc2653ad55dda1b84355f814172810c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 044/137] fix: spherical_average works without window functions

---
 src/hera_pspec/grouping.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index cf76a83..7017099 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -934,7 +934,8 @@ def spherical_average(
         # setup the design matrix: P_cyl = A P_sph
         A[spw] = np.zeros((uvp.Ntimes, Ndlyblps, Nk, uvp.Npols), dtype=np.float64)
         # design matrix for window functions
-        Aw = np.zeros((uvp.Ntimes, Nfreqs, Nk_theory, uvp.Npols), dtype=np.float64)
+        if store_window:
+            Aw = np.zeros((uvp.Ntimes, Nfreqs, Nk_theory, uvp.Npols), dtype=np.float64)
         # setup weighting matrix: block diagonal for each Ndly x Ndly
         # we can represent the Ndlyblps x Ndlyblps block diagonal matrix as Ndlyblps x Ndlys
         E = np.zeros((uvp.Ntimes, Ndlyblps, Ndlys, uvp.Npols), dtype=np.float64)
@@ -1040,6 +1041,9 @@ def spherical_average(
                 # populate A matrix
                 A[spw][:, i + Ndlys * b, kind, :] = 1.0
 
+            if not store_window:
+                continue
+
             # get k_sph -> k_cyl mapping for window function
             # get k magnitude of data: (Ndlys,)
             kmags_per_freq = np.sqrt(kperps[blpt_inds][0] ** 2 + kparas_per_freq**2)
-- 
2.43.0


From 9a2cd60e2909b04ce3663a68a734ff70c8e7452a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 045/137] fix: spherical_average bins each baseline-pair's
 window function with its own |k|

---
 src/hera_pspec/grouping.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 7017099..37aebc3 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -933,9 +933,12 @@ def spherical_average(
 
         # setup the design matrix: P_cyl = A P_sph
         A[spw] = np.zeros((uvp.Ntimes, Ndlyblps, Nk, uvp.Npols), dtype=np.float64)
-        # design matrix for window functions
+        # design matrix for window functions, one block of Nfreqs rows per blpair
         if store_window:
-            Aw = np.zeros((uvp.Ntimes, Nfreqs, Nk_theory, uvp.Npols), dtype=np.float64)
+            Aw = np.zeros(
+                (uvp.Ntimes, Nfreqs * uvp.Nblpairs, Nk_theory, uvp.Npols),
+                dtype=np.float64,
+            )
         # setup weighting matrix: block diagonal for each Ndly x Ndly
         # we can represent the Ndlyblps x Ndlyblps block diagonal matrix as Ndlyblps x Ndlys
         E = np.zeros((uvp.Ntimes, Ndlyblps, Ndlys, uvp.Npols), dtype=np.float64)
@@ -1054,7 +1057,7 @@ def spherical_average(
                     # convert kind into an integer for indexing
                     kind = np.where(kind)[0][0]
                 # populate Aw matrix
-                Aw[:, i, kind, :] = 1.0
+                Aw[:, i + Nfreqs * b, kind, :] = 1.0
 
         # normalize metadata sums
         wgt_array[spw] /= np.max(wgt_array[spw], axis=(2, 3), keepdims=True).clip(
@@ -1091,11 +1094,16 @@ def spherical_average(
         data_array[spw] = np.moveaxis(dm, 0, -1)
 
         if store_window and not uvp.exact_windows:
-            # bin window function: W_sph = H.T W_cyl A
-            # wm shape (Npols, Ntimes, Ndlyblps, Ndlyblps)
-            wm = np.moveaxis(window_function_array[spw], -1, 0)
+            # bin window function: W_sph = H.T W_cyl A, summed over blpairs
+            # since W_cyl is block diagonal and each blpair has its own k mapping
+            # wcyl shape (Npols, Ntimes, Ndlyblps, Nfreqs)
+            wcyl = np.moveaxis(window_function_array[spw], -1, 0)
             Aw2 = np.moveaxis(Aw, -1, 0)
-            wm = Ht @ wm @ Aw2
+            wm = 0.0
+            for b in range(uvp.Nblpairs):
+                dslice = slice(Ndlys * b, Ndlys * (b + 1))
+                fslice = slice(Nfreqs * b, Nfreqs * (b + 1))
+                wm = wm + Ht[..., dslice] @ wcyl[:, :, dslice] @ Aw2[:, :, fslice]
             window_function_array[spw] = np.moveaxis(wm, 0, -1)
 
         if store_stats:
-- 
2.43.0


From ad85b56884ab3bb4b4366cab6f7899222397b9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 046/137] fix: spherical_average weights integration times over
 all baseline-pairs

---
 src/hera_pspec/grouping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 37aebc3..d794607 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -899,6 +899,7 @@ def spherical_average(
         )
         integration_array[spw] = np.zeros((uvp.Ntimes, uvp.Npols), dtype=np.float64)
         nsample_array[spw] = np.zeros((uvp.Ntimes, uvp.Npols), dtype=np.float64)
+        integration_norm = np.zeros((uvp.Ntimes, uvp.Npols), dtype=np.float64)
 
         # setup arrays with delays in them
         Ndlys = spw_range[3]
@@ -1032,6 +1033,7 @@ def spherical_average(
             )  # use sum of E across delay as weight
             wgt_array[spw] += wgts * Emean[:, None, None, :]
             integration_array[spw] += ints * Emean
+            integration_norm += Emean
             nsample_array[spw] += nsmp
 
             # get k_sph -> k_cyl mapping
@@ -1063,7 +1065,7 @@ def spherical_average(
         wgt_array[spw] /= np.max(wgt_array[spw], axis=(2, 3), keepdims=True).clip(
             1e-40, np.inf
         )
-        integration_array[spw] /= np.trace(E.real, axis1=1, axis2=2).clip(1e-40, np.inf)
+        integration_array[spw] /= integration_norm.clip(1e-40, np.inf)
 
         # project onto spherically binned space
         # note: matmul (@) is generally as fast or many times faster than einsum here
-- 
2.43.0


From 431dd0390a7422c2d4363ec8847ab48d036d87af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:18 +0000
Subject: [PATCH 047/137] fix: spherical_average keeps each row's own times and
 LSTs

---
 src/hera_pspec/grouping.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index d794607..41593e9 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1185,12 +1185,8 @@ def spherical_average(
     uvp.bl_vecs[:] = 0.0
 
     # handle other metadata
-    uvp.time_avg_array = np.unique(uvp_in.time_avg_array)
-    uvp.time_1_array = np.unique(uvp_in.time_1_array)
-    uvp.time_2_array = np.unique(uvp_in.time_2_array)
-    uvp.lst_avg_array = np.unique(uvp_in.lst_avg_array)
-    uvp.lst_1_array = np.unique(uvp_in.lst_1_array)
-    uvp.lst_2_array = np.unique(uvp_in.lst_2_array)
+    for name in ("time_avg", "time_1", "time_2", "lst_avg", "lst_1", "lst_2"):
+        setattr(uvp, f"{name}_array", getattr(uvp, f"{name}_array")[blp_inds])
 
     uvp.history = "Spherically averaged with hera_pspec [{}]\n{}\n{}\n{}".format(
         __version__, add_to_history, "-" * 40, uvp.history
-- 
2.43.0


From dd82c9a25db4e150216e2fb0e7398c5c9e219460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 048/137] fix: spherical_average averages spectra with exact
 windows up front

---
 src/hera_pspec/grouping.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 41593e9..fe73f74 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -841,7 +841,7 @@ def spherical_average(
     assert np.all(kbin_left[1:] >= kbin_right[:-1] - 1e-6), "kbins must not overlap"
 
     # perform time and cylindrical averaging upfront if requested
-    if not uvp.exact_windows and (blpair_groups is not None or time_avg):
+    if blpair_groups is not None or time_avg:
         uvp.average_spectra(
             blpair_groups=blpair_groups,
             time_avg=time_avg,
@@ -1134,12 +1134,13 @@ def spherical_average(
 
     if uvp.exact_windows and store_window:
         window_function_array = spherical_wf_from_uvp(
-            uvp,
+            uvp_in,
             np.r_[kbin_left, kbin_right[-1]],
             kbin_edges_theory=np.r_[kbin_left_theory, kbin_right_theory[-1]],
             blpair_groups=blpair_groups,
             blpair_weights=blpair_weights,
             time_avg=time_avg,
+            time_tol=time_tol,
             error_weights=error_weights,
             spw_array=uvp.spw_array,
             little_h=True,
-- 
2.43.0


From 35430ec3f0c1a99d66ecf7ee023ba87d31abbeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 049/137] fix: spherical_wf_from_uvp leaves the caller's bin
 edges alone

---
 src/hera_pspec/grouping.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index fe73f74..615df20 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1298,11 +1298,11 @@ def spherical_wf_from_uvp(
         # we modify the units of the input kbins to be consistent with uvp_in
         # and, likely, the units of the pre-computed window functions.
         if little_h:
-            kbin_edges *= uvp_in.cosmo.h
-            kbin_edges_theory *= uvp_in.cosmo.h
+            kbin_edges = kbin_edges * uvp_in.cosmo.h
+            kbin_edges_theory = kbin_edges_theory * uvp_in.cosmo.h
         else:
-            kbin_edges /= uvp_in.cosmo.h
-            kbin_edges_theory /= uvp_in.cosmo.h
+            kbin_edges = kbin_edges / uvp_in.cosmo.h
+            kbin_edges_theory = kbin_edges_theory / uvp_in.cosmo.h
         # final little_h matches the units of uvp_in
         little_h = "h^-3" in uvp_in.norm_units
 
-- 
2.43.0


From 7e2f356a89d79f01f4b3d6531a8443b0ab4045b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 050/137] fix: spherical_wf_from_uvp handles several
 polarization pairs

---
 src/hera_pspec/grouping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 615df20..c36f2bf 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1395,8 +1395,8 @@ def spherical_wf_from_uvp(
         )
 
         # iterate over polarisation
-        spw_window_function = []
         for ip, polpair in enumerate(uvp.polpair_array):
+            spw_window_function = []
             # grids used to compute the window functions
             kperp_bins = uvp.window_function_kperp[spw][:, ip]
             kpara_bins = uvp.window_function_kpara[spw][:, ip]
-- 
2.43.0


From 16eb862501539c81b16a0c59265afa07608a47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 051/137] fix: spherical_wf_from_uvp keeps the windows of
 different times apart

---
 src/hera_pspec/grouping.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index c36f2bf..e9d89e0 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1403,8 +1403,9 @@ def spherical_wf_from_uvp(
             ktot = np.sqrt(kperp_bins[:, None] ** 2 + kpara_bins**2)
 
             cyl_wf = uvp.window_function_array[spw][..., ip]
-            # separate baseline-time axis to iterate over times
-            cyl_wf = cyl_wf.reshape((uvp.Ntimes, uvp.Nblpairs, *cyl_wf.shape[1:]))
+            # separate baseline-time axis to iterate over times:
+            # average_spectra stores all the times of a baseline-pair contiguously
+            cyl_wf = cyl_wf.reshape((uvp.Nblpairs, uvp.Ntimes, *cyl_wf.shape[1:]))
 
             # take average for each time
             for it in range(uvp.Ntimes):
@@ -1413,7 +1414,7 @@ def spherical_wf_from_uvp(
                     mask1 = (kbin_edges[m1] <= kmags) & (kmags < kbin_edges[m1 + 1])
                     if np.any(mask1):
                         wf_temp = np.sum(
-                            cyl_wf[it, ...] * mask1[:, :, None, None].astype(int),
+                            cyl_wf[:, it, ...] * mask1[:, :, None, None].astype(int),
                             axis=(0, 1),
                         ) / np.sum(mask1)
                         if np.sum(wf_temp) > 0.0:
-- 
2.43.0


From 00e7fcd87bf31c962fb275418cabae9bd4104b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:37 +0000
Subject: [PATCH 052/137] fix: spherical_wf_from_uvp leaves an all-zero window
 at zero

---
 src/hera_pspec/grouping.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index e9d89e0..5a18abe 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1427,11 +1427,9 @@ def spherical_wf_from_uvp(
                                 ):  # cannot compute mean if zero elements
                                     wf_spherical[m1, m2] = np.mean(wf_temp[mask2])
                             # normalisation
-                            wf_spherical[m1, :] = np.divide(
-                                wf_spherical[m1, :],
-                                np.sum(wf_spherical[m1, :]),
-                                where=np.sum(wf_spherical[m1, :]) != 0,
-                            )
+                            norm = np.sum(wf_spherical[m1, :])
+                            if norm != 0:
+                                wf_spherical[m1, :] /= norm
                 spw_window_function.append(wf_spherical)
 
             window_function_array[spw][..., ip] = np.copy(spw_window_function)
-- 
2.43.0


From f87944b88c2c6e9a7a2a55a679bb4a0122ec9275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 053/137] fix: spherical_wf_from_uvp accepts groups of
 antenna-number tuples

---
 src/hera_pspec/grouping.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 5a18abe..6eb7011 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1327,9 +1327,13 @@ def spherical_wf_from_uvp(
             # Get all baseline pairs in uvp object (in integer form)
             uvp_blpairs = [uvp.antnums_to_blpair(blp) for blp in uvp.get_blpairs()]
             uvp_blvecs = uvp.get_blpair_blvecs()
-            blvecs_groups = [
-                uvp_blvecs[uvp_blpairs.index(group[0])] for group in blpair_groups
+            first_blpairs = [
+                uvp.antnums_to_blpair(group[0])
+                if isinstance(group[0], tuple)
+                else group[0]
+                for group in blpair_groups
             ]
+            blvecs_groups = [uvp_blvecs[uvp_blpairs.index(blp)] for blp in first_blpairs]
             # get baseline length for each group of baseline pairs
             # assuming only redundant baselines are paired together
             blpair_lens, _ = utils.get_bl_lens_angs(blvecs_groups, bl_error_tol=1.0)
-- 
2.43.0


From 3fd004542a19cce5a2bdb1b7fa6cda2d841ee7f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:57 +0000
Subject: [PATCH 054/137] fix: reversed East-West baselines get the same angle
 as their partners

---
 src/hera_pspec/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 0338561..11c3b47 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1218,7 +1218,7 @@ def get_bl_lens_angs(blvecs, bl_error_tol=1.0):
     angs = np.array([(a + 180) % 360 if a < 0 else a for a in angs])
 
     # Find baseline groups with ang ~ 180 deg that have y-vec within bl_error and set to ang = 0 deg.
-    flip = (blvecs[:, 1] > -bl_error_tol) & (blvecs[:, 1] < 0) & (blvecs[:, 0] > 0)
+    flip = (np.abs(blvecs[:, 1]) < bl_error_tol) & (angs > 90)
     angs[flip] = 0
 
     return lens, angs
-- 
2.43.0


From a795ae0cba728261943664f3c9a80b689c78c698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 055/137] fix: average_in_delay_bins leaves the caller's
 kernels alone

---
 src/hera_pspec/grouping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 6eb7011..91eba72 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2442,8 +2442,8 @@ def average_in_delay_bins(
     if not np.allclose(zero_bin_kernel, zero_bin_kernel[::-1]):
         raise ValueError("The zero bin kernel must be symmetric!")
 
-    kernel /= np.sum(kernel)
-    zero_bin_kernel /= np.sum(zero_bin_kernel)
+    kernel = kernel / np.sum(kernel)
+    zero_bin_kernel = zero_bin_kernel / np.sum(zero_bin_kernel)
 
     # We will replace parts of the new_uvp with downsampled
     # delays.
-- 
2.43.0


From 9ce6fd0d9a442da3c9c6ff066b7493005f068bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:26 +0000
Subject: [PATCH 056/137] fix: average_in_delay_bins updates Ndlys

---
 src/hera_pspec/grouping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 91eba72..cd2f5f6 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2520,5 +2520,6 @@ def average_in_delay_bins(
     new_uvp.dly_array = np.concatenate(dly_array)
     new_uvp.spw_dly_array = np.concatenate(spw_dly_array)
     new_uvp.Nspwdlys = len(new_uvp.dly_array)
+    new_uvp.Ndlys = len(np.unique(new_uvp.dly_array))
 
     return new_uvp
-- 
2.43.0


From 9a6a1bd561881f936632de940a9ddc7f8de31c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 057/137] fix: average_in_delay_bins carries infinite error
 bars through

---
 src/hera_pspec/grouping.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index cd2f5f6..1c87964 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2252,15 +2252,22 @@ def _bin_rms_like_array(
     outswapped = out.swapaxes(-1, axis)
 
     for i, (slc, kernel) in enumerate(zip(slices, kernels)):
-        vals = dswapped[..., slc]
+        # delays without weight do not enter, even if their error bar is infinite
+        vals = dswapped[..., slc][..., kernel != 0]
+        kernel = kernel[kernel != 0]
         scale = np.max(vals, axis=-1)
         scaled = np.divide(
             vals,
             scale[..., np.newaxis],
             out=np.zeros_like(vals, dtype=out.dtype),
-            where=scale[..., np.newaxis] != 0,
+            where=(scale[..., np.newaxis] != 0) & np.isfinite(scale[..., np.newaxis]),
+        )
+        # an infinite error bar makes the error of the mean infinite
+        outswapped[..., i] = np.where(
+            np.isfinite(scale),
+            scale * np.sqrt(np.sum((scaled**2) * kernel, axis=-1)),
+            scale,
         )
-        outswapped[..., i] = scale * np.sqrt(np.sum((scaled**2) * kernel, axis=-1))
 
     return out
 
-- 
2.43.0


From 8e8e91ff9248dfe48be156b5bbad9fe61e7ef500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 058/137] fix: average_in_delay_bins returns symmetric delays

---
 src/hera_pspec/grouping.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 1c87964..c86287d 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2335,10 +2335,11 @@ def _get_delay_slices(
         raise ValueError("nzero must be odd!")
 
     # We're going to try to keep the symmetry betwen negative and positive delays.
-    # This means we keep the zero delay un-averaged.
+    # This means we keep the zero delay un-averaged, mirror the kernel at negative
+    # delays, and ignore the extra negative delay of an even-sized array.
     neg_slices = []
     low = zero_idx - nk - nzero // 2
-    while low >= 0:
+    while low >= 2 * zero_idx - n + 1:
         neg_slices.append(slice(low, low + nk))
         low -= nk
 
@@ -2352,7 +2353,9 @@ def _get_delay_slices(
         neg_slices[::-1]
         + [slice(zero_idx - nzero // 2, zero_idx + 1 + nzero // 2)]
         + pos_slices,
-        [kernel] * len(neg_slices) + [zero_kernel] + [kernel] * len(pos_slices),
+        [kernel[::-1]] * len(neg_slices)
+        + [zero_kernel]
+        + [kernel] * len(pos_slices),
     )
 
 
-- 
2.43.0


From 4d1eb2ce4614d42bb706d034f0c5bd2d21f14a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:10 +0000
Subject: [PATCH 059/137] fix: average_in_delay_bins refuses a zero-bin kernel
 longer than a window

---
 src/hera_pspec/grouping.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index c86287d..886a08c 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2333,6 +2333,8 @@ def _get_delay_slices(
 
     if nzero % 2 == 0:
         raise ValueError("nzero must be odd!")
+    if nzero // 2 > min(zero_idx, n - 1 - zero_idx):
+        raise ValueError("The zero bin kernel must not be longer than the delay array!")
 
     # We're going to try to keep the symmetry betwen negative and positive delays.
     # This means we keep the zero delay un-averaged, mirror the kernel at negative
-- 
2.43.0


From 40e71d39b1fa967503f846accbda3e692b1bf277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 060/137] fix: select_common applies the common polarization
 pairs

---
 src/hera_pspec/uvpspec_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index f2eeb99..40b7d7a 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -365,7 +365,7 @@ def select_common(
         if lsts:
             _lsts = common_lsts
         if polpairs:
-            _pols = common_polpairs
+            _polpairs = common_polpairs
         if spws:
             _spws = [uvp.get_spw_ranges().index(j) for j in common_spws]
 
-- 
2.43.0


From d67f2271a3346ec139989e106056d1c21f4fc286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 061/137] fix: subtract_uvp matches the rows of each
 baseline-pair by LST

---
 src/hera_pspec/uvpspec_utils.py | 55 ++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 40b7d7a..ab3366e 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -8,6 +8,13 @@ from pyuvdata.utils import polnum2str, polstr2num
 from . import utils
 
 
+def _lst_ordered_rows(uvp, blpair):
+    """Row indices of a baseline-pair, in order of LST."""
+    inds = uvp.blpair_to_indices(blpair)
+    keys = (uvp.lst_2_array[inds], uvp.lst_1_array[inds], uvp.lst_avg_array[inds])
+    return inds[np.lexsort(keys)]
+
+
 def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
     """
     Subtract uvp2.data_array from uvp1.data_array. Subtract matching
@@ -53,6 +60,7 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
     polpairs1 = uvp1.polpair_array.tolist()
     blps1 = sorted(set(uvp1.blpair_array))
     spws2 = [spw for spw in uvp2.get_spw_ranges()]
+    polpairs2 = uvp2.polpair_array.tolist()
 
     # iterate over spws
     for i, spw in enumerate(spws1):
@@ -61,22 +69,30 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
 
         # iterate over pol
         for j, polpair in enumerate(polpairs1):
+            # get uvp2 index
+            j2 = polpairs2.index(polpair)
+
             # iterate over blp
             for k, blp in enumerate(blps1):
-                # form keys
-                key1 = (i, blp, polpair)
-                key2 = (i2, blp, polpair)
+                # match the rows of this blpair by LST
+                blp1_inds = _lst_ordered_rows(uvp1, blp)
+                blp2_inds = _lst_ordered_rows(uvp2, blp)
+                if not np.array_equal(
+                    uvp1.lst_avg_array[blp1_inds], uvp2.lst_avg_array[blp2_inds]
+                ):
+                    raise ValueError(f"The LSTs of baseline-pair {blp} do not match.")
 
                 # subtract data
-                blp1_inds = uvp1.blpair_to_indices(blp)
-                uvp1.data_array[i][blp1_inds, :, j] -= uvp2.get_data(key2)
+                uvp1.data_array[i][blp1_inds, :, j] -= uvp2.data_array[i2][
+                    blp2_inds, :, j2
+                ]
 
                 # add nsample inversely in quadrature
                 uvp1.nsample_array[i][blp1_inds, j] = np.sqrt(
                     1.0
                     / (
-                        1.0 / uvp1.get_nsamples(key1) ** 2
-                        + 1.0 / uvp2.get_nsamples(key2) ** 2
+                        1.0 / uvp1.nsample_array[i][blp1_inds, j] ** 2
+                        + 1.0 / uvp2.nsample_array[i2][blp2_inds, j2] ** 2
                     )
                 )
 
@@ -84,15 +100,18 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                 uvp1.integration_array[i][blp1_inds, j] = np.sqrt(
                     1.0
                     / (
-                        1.0 / uvp1.get_integrations(key1) ** 2
-                        + 1.0 / uvp2.get_integrations(key2) ** 2
+                        1.0 / uvp1.integration_array[i][blp1_inds, j] ** 2
+                        + 1.0 / uvp2.integration_array[i2][blp2_inds, j2] ** 2
                     )
                 )
 
                 # add wgts inversely in quadrature
                 uvp1.wgt_array[i][blp1_inds, :, :, j] = np.sqrt(
                     1.0
-                    / (1.0 / uvp1.get_wgts(key1) ** 2 + 1.0 / uvp2.get_wgts(key2) ** 2)
+                    / (
+                        1.0 / uvp1.wgt_array[i][blp1_inds, :, :, j] ** 2
+                        + 1.0 / uvp2.wgt_array[i2][blp2_inds, :, :, j2] ** 2
+                    )
                 )
                 uvp1.wgt_array[i][blp1_inds, :, :, j] /= uvp1.wgt_array[i][
                     blp1_inds, :, :, j
@@ -101,8 +120,8 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                 # add stats in quadrature: real imag separately
                 if hasattr(uvp1, "stats_array") and hasattr(uvp2, "stats_array"):
                     for s in uvp1.stats_array.keys():
-                        stat1 = uvp1.get_stats(s, key1)
-                        stat2 = uvp2.get_stats(s, key2)
+                        stat1 = uvp1.stats_array[s][i][blp1_inds, :, j]
+                        stat2 = uvp2.stats_array[s][i2][blp2_inds, :, j2]
                         uvp1.stats_array[s][i][blp1_inds, :, j] = np.sqrt(
                             stat1.real**2 + stat2.real**2
                         ) + 1j * np.sqrt(stat1.imag**2 + stat2.imag**2)
@@ -112,14 +131,14 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                         uvp2, "cov_array_real"
                     ):
                         if uvp1.cov_model == uvp2.cov_model:
-                            cov1r = uvp1.get_cov(key1, component="real")
-                            cov2r = uvp2.get_cov(key2, component="real")
+                            cov1r = uvp1.cov_array_real[i][blp1_inds, :, :, j]
+                            cov2r = uvp2.cov_array_real[i2][blp2_inds, :, :, j2]
                             uvp1.cov_array_real[i][blp1_inds, :, :, j] = np.sqrt(
                                 cov1r**2 + cov2r**2
                             )
 
-                            cov1i = uvp1.get_cov(key1, component="imag")
-                            cov2i = uvp2.get_cov(key2, component="imag")
+                            cov1i = uvp1.cov_array_imag[i][blp1_inds, :, :, j]
+                            cov2i = uvp2.cov_array_imag[i2][blp2_inds, :, :, j2]
                             uvp1.cov_array_imag[i][blp1_inds, :, :, j] = np.sqrt(
                                 cov1i**2 + cov2i**2
                             )
@@ -128,8 +147,8 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                 if hasattr(uvp1, "window_function_array") and hasattr(
                     uvp2, "window_function_array"
                 ):
-                    window1 = uvp1.get_window_function(key1)
-                    window2 = uvp2.get_window_function(key2)
+                    window1 = uvp1.window_function_array[i][blp1_inds, ..., j]
+                    window2 = uvp2.window_function_array[i2][blp2_inds, ..., j2]
                     uvp1.window_function_array[i][blp1_inds, ..., j] = np.sqrt(
                         window1**2 + window2**2
                     )
-- 
2.43.0


From 755e19e2f8d83939d1401d6ccac73672eda0698e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:41 +0000
Subject: [PATCH 062/137] fix: subtract_uvp leaves weights of zero at zero

---
 src/hera_pspec/uvpspec_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index ab3366e..fa62cec 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -113,9 +113,9 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                         + 1.0 / uvp2.wgt_array[i2][blp2_inds, :, :, j2] ** 2
                     )
                 )
-                uvp1.wgt_array[i][blp1_inds, :, :, j] /= uvp1.wgt_array[i][
-                    blp1_inds, :, :, j
-                ].max()
+                wgt_max = uvp1.wgt_array[i][blp1_inds, :, :, j].max()
+                if wgt_max > 0:
+                    uvp1.wgt_array[i][blp1_inds, :, :, j] /= wgt_max
 
                 # add stats in quadrature: real imag separately
                 if hasattr(uvp1, "stats_array") and hasattr(uvp2, "stats_array"):
-- 
2.43.0


From 474572aeb7a79cf4cfa8351f82e5a3c04208631f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:01 +0000
Subject: [PATCH 063/137] fix: bootstrap_average_blpairs accepts several
 objects

---
 src/hera_pspec/grouping.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 886a08c..fe8700a 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1736,7 +1736,14 @@ def bootstrap_average_blpairs(uvp_list, blpair_groups, time_avg=False, seed=None
     # Homogenise input UVPSpec objects in terms of available polarizations
     # and spectral windows
     if len(uvp_list) > 1:
-        uvp_list = uvputils.select_common(uvp_list, spws=True, pols=True, inplace=False)
+        uvp_list = uvputils.select_common(
+            uvp_list,
+            spws=True,
+            blpairs=False,
+            times=False,
+            polpairs=True,
+            inplace=False,
+        )
 
     # Loop over UVPSpec objects, looking for available blpairs in each
     avail_blpairs = [_ordered_unique(uvp.blpair_array) for uvp in uvp_list]
-- 
2.43.0


From e6ac685e7e0551a8f7f4a37a97e8e4e9b93b3b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 064/137] fix: combine_psc_spectra only merges spectra of the
 same name

---
 src/hera_pspec/container.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index 5631c5e..5a3d9c2 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -604,7 +604,7 @@ def combine_psc_spectra(
         spectra = list(psc.data[grp].keys())
 
         # Get unique spectra by splitting and then re-joining
-        unique_spectra = []
+        unique_spectra, base_names = [], []
         for spc in spectra:
             if dset_split_str == "" or dset_split_str is None:
                 sp = spc.split(ext_split_str)[0]
@@ -613,6 +613,7 @@ def combine_psc_spectra(
                     [s.split(ext_split_str) for s in spc.split(dset_split_str)]
                 )[:2]
                 sp = dset_split_str.join(sp)
+            base_names.append(sp)
             if sp not in unique_spectra:
                 unique_spectra.append(sp)
 
@@ -627,9 +628,12 @@ def combine_psc_spectra(
                     )
                 continue
 
-            # get merge list
+            # get merge list: this name itself, or this name with an extension
             to_merge = [
-                spectra[i] for i in np.where([spc in _sp for _sp in spectra])[0]
+                _sp
+                for _sp, base in zip(spectra, base_names)
+                if base == spc
+                and (_sp == spc or _sp.startswith(f"{spc}{ext_split_str}"))
             ]
             try:
                 # merge
-- 
2.43.0


From bf78f51cb18ffc4d29bd45eaa7f21615011a70f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 065/137] fix: combine_psc_spectra works on containers that are
 not kept open

---
 src/hera_pspec/container.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/container.py b/src/hera_pspec/container.py
index 5a3d9c2..63f5efe 100644
--- a/src/hera_pspec/container.py
+++ b/src/hera_pspec/container.py
@@ -4,7 +4,6 @@ import warnings
 from functools import wraps
 
 import h5py
-import numpy as np
 
 from . import __version__, utils, uvpspec
 
@@ -384,6 +383,18 @@ class PSpecContainer:
                 del self.data[key1]
             raise
 
+    @transactional
+    def _delete_pspec(self, group, psname):
+        """
+        Remove a power spectrum from the container.
+
+        Parameters
+        ----------
+        group, psname : str
+            The group and name of the power spectrum to remove.
+        """
+        del self.data[group][psname]
+
     @transactional
     def get_pspec(self, group, psname=None, **kwargs):
         """
@@ -601,7 +612,7 @@ def combine_psc_spectra(
     # Iterate over groups
     for grp in groups:
         # Get spectra in this group
-        spectra = list(psc.data[grp].keys())
+        spectra = psc.spectra(grp)
 
         # Get unique spectra by splitting and then re-joining
         unique_spectra, base_names = [], []
@@ -649,7 +660,7 @@ def combine_psc_spectra(
                 # if successful merge, remove uvps
                 for uvp_name in to_merge:
                     if uvp_name != spc:
-                        del psc.data[grp][uvp_name]
+                        psc._delete_pspec(grp, uvp_name)
             except Exception as exc:
                 # merge failed, so continue
                 if verbose:
-- 
2.43.0


From 839fb49f920ee8c94660daa57aea96e73b2be59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 066/137] fix: psc_merge_spectra.py uses the argument parser
 that exists

---
 scripts/psc_merge_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/psc_merge_spectra.py b/scripts/psc_merge_spectra.py
index 1e594df..a083795 100755
--- a/scripts/psc_merge_spectra.py
+++ b/scripts/psc_merge_spectra.py
@@ -9,14 +9,14 @@ from hera_cal._cli_tools import parse_args, run_with_profiling
 from hera_pspec import container
 
 # Parse commandline args
-args = container.get_combine_psc_argparser()
+args = container.get_combine_psc_spectra_argparser()
 a = parse_args(args)
 
 run_with_profiling(
     container.combine_psc_spectra,
     a,
     psc=a.filename,
-    uvp_split_str=a.uvp_split_str,
+    dset_split_str=a.dset_split_str,
     ext_split_str=a.ext_split_str,
     verbose=a.verbose,
 )
-- 
2.43.0


From da5304c8b01d82247baf68c7cb813aad5ada068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:20 +0000
Subject: [PATCH 067/137] fix: get_blvec_reds orders groups longer than a
 kilometre by length

---
 src/hera_pspec/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 11c3b47..1573434 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1077,8 +1077,8 @@ def get_blvec_reds(blvecs, bl_error_tol=1.0, match_bl_lens=False):
             red_bl_ang.append(bl_ang)
             red_bl_tag.append(bl_tag)
 
-    # order based on tag
-    order = np.argsort(red_bl_tag)
+    # order based on length, then on tag
+    order = np.lexsort((red_bl_tag, np.round(red_bl_len)))
     red_bl_grp = [red_bl_grp[i] for i in order]
     red_bl_len = [red_bl_len[i] for i in order]
     red_bl_ang = [red_bl_ang[i] for i in order]
-- 
2.43.0


From 879629f83766bc4e11f770b558e30dfb3bf7c41a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:49 +0000
Subject: [PATCH 068/137] fix: job_monitor retries the failed jobs instead of
 their indices

---
 src/hera_pspec/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 1573434..0eeabc1 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1131,6 +1131,7 @@ def job_monitor(
     t_start = time.time()
 
     # run function over jobs
+    iterator = list(iterator)
     exit_codes = np.array(list(M(run_func, iterator)))
     tnow = datetime.now(UTC)
 
@@ -1159,7 +1160,7 @@ def job_monitor(
                 # break after certain number of tries
                 break
             # re-run function over jobs that failed
-            exit_codes = np.array(list(M(run_func, failures)))
+            exit_codes = np.array(list(M(run_func, [iterator[i] for i in failures])))
             # update counter
             counter += 1
             # update failures
-- 
2.43.0


From 4ef440903b6f8e8aa2b682675e5e05b24e9bd96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 069/137] fix: construct_pstokes accepts file paths together
 with a string pstokes

---
 src/hera_pspec/pstokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index b3b91ac..5db815b 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -408,7 +408,7 @@ def construct_pstokes(
     # convert pstokes to integer if fed as a string
     if isinstance(pstokes, str):
         pstokes = pyuvdata.utils.polstr2num(
-            pstokes, x_orientation=dset1.telescope.get_x_orientation_from_feeds()
+            pstokes, x_orientation=uvd1.telescope.get_x_orientation_from_feeds()
         )
 
     # check if dset1 and dset2 habe the same spectral window
-- 
2.43.0


From 8eb60122890c55dc0acdc4cddc81c092498abf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 070/137] fix: generate_pstokes_run.py works with its default
 --pstokes

---
 src/hera_pspec/pstokes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index 5db815b..4409f5b 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -539,7 +539,7 @@ def generate_pstokes_argparser():
         type=str,
         help="list of pStokes you wish to calculate. Default is ['pI']",
         nargs="+",
-        default="pI",
+        default=["pI"],
     )
     a.add_argument(
         "--outputdata",
-- 
2.43.0


From ff06908ca73b7b0d1719134de0e0a66f7c25ea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:50 +0000
Subject: [PATCH 071/137] fix: construct_pstokes leaves the polarization
 convention of its inputs alone

---
 src/hera_pspec/pstokes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/pstokes.py b/src/hera_pspec/pstokes.py
index 4409f5b..c864a07 100644
--- a/src/hera_pspec/pstokes.py
+++ b/src/hera_pspec/pstokes.py
@@ -113,15 +113,17 @@ def _combine_pol(uvd1, uvd2, pol1, pol2, pstokes="pI", x_orientation=None):
     assert isinstance(uvd1, pyuvdata.UVData), "uvd1 must be a pyuvdata.UVData instance"
     assert isinstance(uvd2, pyuvdata.UVData), "uvd2 must be a pyuvdata.UVData instance"
 
+    pol_conventions = []
     for i, uvd in enumerate([uvd1, uvd2]):
         pol_convention = getattr(uvd, "pol_convention", None)
         if pol_convention is None:
             warnings.warn(
                 f'No polarization convention in uvd{i + 1}. Considering it to be "avg".'
             )
-            setattr(uvd, "pol_convention", "avg")
+            pol_convention = "avg"
+        pol_conventions.append(pol_convention)
 
-    if uvd1.pol_convention != uvd2.pol_convention:
+    if pol_conventions[0] != pol_conventions[1]:
         raise ValueError("pol_convention of uvd1 and uvd2 are different.")
 
     # combine arrays according to polarization convention
@@ -129,7 +131,7 @@ def _combine_pol(uvd1, uvd2, pol1, pol2, pstokes="pI", x_orientation=None):
         pol1,
         pol2,
         pstokes,
-        uvd1.pol_convention,
+        pol_conventions[0],
         [uvd1.data_array, uvd2.data_array],
         [uvd1.flag_array, uvd2.flag_array],
         [uvd1.nsample_array, uvd2.nsample_array],
@@ -145,6 +147,7 @@ def _combine_pol(uvd1, uvd2, pol1, pol2, pstokes="pI", x_orientation=None):
     uvdS.flag_array = combined_flags  # flag array
     uvdS.polarization_array = np.array([pstokes], dtype=int)  # polarization number
     uvdS.nsample_array = combined_nsamples
+    uvdS.pol_convention = pol_conventions[0]
 
     uvdS.history = (
         f"Merged into pseudo-stokes vis with hera_pspec version {__version__}\n"
-- 
2.43.0


From 3f961d8ef7e0ff89f29966c629e2af6ece90a7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 072/137] fix: convert_to_deltasq works on folded spectra

---
 src/hera_pspec/uvpspec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 61d1cbb..1f85ac8 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1216,7 +1216,10 @@ class UVPSpec:
         for spw in range(uvp.Nspws):
             # get k vectors
             k_perp = uvp.get_kperps(spw, little_h=little_h)
-            k_para = uvp.get_kparas(spw, little_h=little_h)
+            # the arrays of folded spectra keep the whole delay axis
+            k_para = uvp.get_kparas(
+                spw, little_h=little_h, dlys=uvp.dly_array[uvp.spw_dly_array == spw]
+            )
             k_mag = np.sqrt(k_perp[:, None, None] ** 2 + k_para[None, :, None] ** 2)
             # shape of (Nbltpairs, spw_Ndlys, Npols)
             coeff = k_mag**3 / (2 * np.pi**2)
-- 
2.43.0


From 2be6eb722126f7a9996866f60636e95cfeb00d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 073/137] fix: set_cosmology rescales error bars and
 covariances with the data

---
 src/hera_pspec/uvpspec.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 1f85ac8..45e4f4e 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2182,8 +2182,15 @@ class UVPSpec:
                     spw, polpair, num_steps=1000, little_h=True, noise_scalar=False
                 )
 
-                # renormalize power spectra with new scalar
-                self.data_array[spw][:, :, j] *= scalar / self.scalar_array[spw, j]
+                # renormalize power spectra and their errors with new scalar
+                ratio = scalar / self.scalar_array[spw, j]
+                self.data_array[spw][:, :, j] *= ratio
+                if hasattr(self, "stats_array"):
+                    for stat in self.stats_array:
+                        self.stats_array[stat][spw][:, :, j] *= ratio
+                if hasattr(self, "cov_array_real"):
+                    self.cov_array_real[spw][..., j] *= ratio**2
+                    self.cov_array_imag[spw][..., j] *= ratio**2
 
                 # update self.scalar_array element
                 self.scalar_array[spw, j] = scalar
-- 
2.43.0


From f671f2e3cd34bfe688279a9229cde60e58b694ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 074/137] fix: set_cosmology keeps the length units of the
 power spectra

---
 src/hera_pspec/uvpspec.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 45e4f4e..a41aa4b 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2173,13 +2173,20 @@ class UVPSpec:
             print(f"setting cosmology: \n{new_cosmo}")
         self.cosmo = new_cosmo
 
+        # keep length units with or without h as they are
+        little_h = "Mpc" not in self.norm_units or "h^-3" in self.norm_units
+
         # Update scalar_array
         if verbose:
             print("Updating scalar array and re-normalizing power spectra")
         for spw in range(self.Nspws):
             for j, polpair in enumerate(self.polpair_array):
                 scalar = self.compute_scalar(
-                    spw, polpair, num_steps=1000, little_h=True, noise_scalar=False
+                    spw,
+                    polpair,
+                    num_steps=1000,
+                    little_h=little_h,
+                    noise_scalar=False,
                 )
 
                 # renormalize power spectra and their errors with new scalar
-- 
2.43.0


From 17eda1fbb2386b3c9ab4a105cf4d78296c4db6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 075/137] fix: UVPSpec.compute_scalar leaves the taper out for
 the H^-1 normalization

---
 src/hera_pspec/uvpspec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index a41aa4b..1bc0790 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2934,7 +2934,8 @@ class UVPSpec:
             OPP / OP**2,
             spw_freqs,
             num_steps=num_steps,
-            taper=self.taper,
+            # H^-1 normalized spectra already account for the taper
+            taper="none" if self.norm == "H^-1" else self.taper,
             little_h=little_h,
             noise_scalar=noise_scalar,
         )
-- 
2.43.0


From 727d3f8aab5b8303f8d4cb2300d14a2dee16bd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 076/137] fix: generate_noise_spectra accepts numbers per
 baseline-pair and ragged baseline-pairs

---
 src/hera_pspec/uvpspec.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 1bc0790..3e93318 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2662,8 +2662,6 @@ class UVPSpec:
 
         # handle Tsys
         if not isinstance(Tsys, dict):
-            if not isinstance(Tsys, np.ndarray):
-                Tsys = np.ones(self.Ntpairs) * Tsys
             Tsys = dict([(blp, Tsys) for blp in blpairs])
 
         # Iterate over blpairs to get P_N
@@ -2671,10 +2669,12 @@ class UVPSpec:
         for i, blp in enumerate(blpairs):
             # get indices
             inds = self.blpair_to_indices(blp)
-            assert (
-                isinstance(Tsys[blp], (float, int))
-                or Tsys[blp].shape[0] == self.Ntpairs
-            ), "Tsys must be a float or an ndarray with shape[0] == Ntpairs"
+            tsys = np.asarray(Tsys[blp])
+            assert tsys.ndim == 0 or tsys.shape[0] == len(inds), (
+                "Tsys must be a float or an ndarray with one value per time of the "
+                "baseline-pair"
+            )
+            tsys = np.broadcast_to(tsys, (len(inds),))
             P_blp = []
 
             # iterate over time axis
@@ -2692,7 +2692,7 @@ class UVPSpec:
                 # Get noise power spectrum
                 pn = noise.calc_P_N(
                     scalar,
-                    Tsys[blp][j],
+                    tsys[j],
                     t_int,
                     k=k,
                     Nincoherent=n_samp,
-- 
2.43.0


From 7878da84831d5afbd5731ccb5b0b9d2cc83ccb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 077/137] fix: Cosmo_Conversions makes Om_b and Om_c agree with
 a given Om_M

---
 src/hera_pspec/conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/conversions.py b/src/hera_pspec/conversions.py
index e7279d2..b10e758 100644
--- a/src/hera_pspec/conversions.py
+++ b/src/hera_pspec/conversions.py
@@ -106,7 +106,7 @@ class Cosmo_Conversions:
         """
         # Setup parameters
         if Om_M is not None:
-            if np.isclose(Om_b + Om_c, Om_M, atol=1e-5) is False:
+            if not np.isclose(Om_b + Om_c, Om_M, atol=1e-5):
                 Om_b = Om_M * 0.156635
                 Om_c = Om_M * 0.843364
         else:
-- 
2.43.0


From de6c3a61a627238182f251993bedea51e28e849a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:00 +0000
Subject: [PATCH 078/137] fix: set_cosmology rescales Delta^2 spectra with the
 k of the new cosmology

---
 src/hera_pspec/uvpspec.py | 51 ++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 3e93318..277d692 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1185,6 +1185,18 @@ class UVPSpec:
                 for tind in tinds:
                     self.stats_array[stat][i][tind, dinds, :] = val
 
+    def _deltasq_coeff(self, spw, little_h=True):
+        """
+        k^3 / (2pi^2) of every bandpower of a spectral window, along the whole
+        delay axis (also of folded spectra), shape=(Nbltpairs, spw_Ndlys, 1)
+        """
+        k_perp = self.get_kperps(spw, little_h=little_h)
+        k_para = self.get_kparas(
+            spw, little_h=little_h, dlys=self.dly_array[self.spw_dly_array == spw]
+        )
+        k_mag = np.sqrt(k_perp[:, None, None] ** 2 + k_para[None, :, None] ** 2)
+        return k_mag**3 / (2 * np.pi**2)
+
     def convert_to_deltasq(self, inplace=True):
         """
         Convert from P(k) to Delta^2(k) by multiplying by k^3 / (2pi^2).
@@ -1214,15 +1226,8 @@ class UVPSpec:
 
         # loop over spectral windows
         for spw in range(uvp.Nspws):
-            # get k vectors
-            k_perp = uvp.get_kperps(spw, little_h=little_h)
-            # the arrays of folded spectra keep the whole delay axis
-            k_para = uvp.get_kparas(
-                spw, little_h=little_h, dlys=uvp.dly_array[uvp.spw_dly_array == spw]
-            )
-            k_mag = np.sqrt(k_perp[:, None, None] ** 2 + k_para[None, :, None] ** 2)
             # shape of (Nbltpairs, spw_Ndlys, Npols)
-            coeff = k_mag**3 / (2 * np.pi**2)
+            coeff = uvp._deltasq_coeff(spw, little_h=little_h)
 
             # multiply into data
             uvp.data_array[spw] *= coeff
@@ -2166,6 +2171,14 @@ class UVPSpec:
             self.OmegaP, self.OmegaPP = new_beam.get_Omegas(self.polpair_array)
             self.beam_freqs = new_beam.beam_freqs
 
+        # keep length units with or without h as they are
+        little_h = "Mpc" not in self.norm_units or "h^-3" in self.norm_units
+
+        # spectra in Delta^2 form depend on the cosmology through k as well
+        deltasq = self.norm_units.count("k^3 / (2pi^2)")
+        if deltasq:
+            old_coeff = [self._deltasq_coeff(i, little_h) for i in range(self.Nspws)]
+
         # Update cosmo
         if isinstance(new_cosmo, dict):
             new_cosmo = conversions.Cosmo_Conversions(**new_cosmo)
@@ -2173,13 +2186,19 @@ class UVPSpec:
             print(f"setting cosmology: \n{new_cosmo}")
         self.cosmo = new_cosmo
 
-        # keep length units with or without h as they are
-        little_h = "Mpc" not in self.norm_units or "h^-3" in self.norm_units
-
         # Update scalar_array
         if verbose:
             print("Updating scalar array and re-normalizing power spectra")
         for spw in range(self.Nspws):
+            kratio = 1.0
+            if deltasq:
+                new_coeff = self._deltasq_coeff(spw, little_h)
+                kratio = np.divide(
+                    new_coeff,
+                    old_coeff[spw],
+                    out=np.ones_like(new_coeff),
+                    where=old_coeff[spw] > 0,
+                )[..., 0] ** deltasq
             for j, polpair in enumerate(self.polpair_array):
                 scalar = self.compute_scalar(
                     spw,
@@ -2190,14 +2209,18 @@ class UVPSpec:
                 )
 
                 # renormalize power spectra and their errors with new scalar
-                ratio = scalar / self.scalar_array[spw, j]
+                ratio = kratio * scalar / self.scalar_array[spw, j]
                 self.data_array[spw][:, :, j] *= ratio
                 if hasattr(self, "stats_array"):
                     for stat in self.stats_array:
                         self.stats_array[stat][spw][:, :, j] *= ratio
                 if hasattr(self, "cov_array_real"):
-                    self.cov_array_real[spw][..., j] *= ratio**2
-                    self.cov_array_imag[spw][..., j] *= ratio**2
+                    if deltasq:
+                        ratio2 = ratio[:, :, None] * ratio[:, None, :]
+                    else:
+                        ratio2 = ratio**2
+                    self.cov_array_real[spw][..., j] *= ratio2
+                    self.cov_array_imag[spw][..., j] *= ratio2
 
                 # update self.scalar_array element
                 self.scalar_array[spw, j] = scalar
-- 
2.43.0


From 6075b6e513e6b2a7b554d1846d1c7b83825f2956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:48 +0000
Subject: [PATCH 079/137] fix: Delta^2 conversion works on folded and averaged
 spectra

---
 src/hera_pspec/uvpspec.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 277d692..4fe07a8 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1187,13 +1187,15 @@ class UVPSpec:
 
     def _deltasq_coeff(self, spw, little_h=True):
         """
-        k^3 / (2pi^2) of every bandpower of a spectral window, along the whole
-        delay axis (also of folded spectra), shape=(Nbltpairs, spw_Ndlys, 1)
+        k^3 / (2pi^2) of every bandpower stored in a spectral window,
+        shape=(Nbltpairs, spw_Ndlys, 1)
         """
+        # arrays of folded spectra hold the whole delay axis, or (once averaged)
+        # only its positive end
+        Ndlys = self.data_array[spw].shape[1]
+        dlys = self.dly_array[self.spw_dly_array == spw][-Ndlys:]
         k_perp = self.get_kperps(spw, little_h=little_h)
-        k_para = self.get_kparas(
-            spw, little_h=little_h, dlys=self.dly_array[self.spw_dly_array == spw]
-        )
+        k_para = self.get_kparas(spw, little_h=little_h, dlys=dlys)
         k_mag = np.sqrt(k_perp[:, None, None] ** 2 + k_para[None, :, None] ** 2)
         return k_mag**3 / (2 * np.pi**2)
 
-- 
2.43.0


From 66e81cd4dfb33bbd5fd4353684d34e174ebbc854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 080/137] fix: pspec_run passes allow_fft on

---
 src/hera_pspec/pspecdata.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index f604510..b3464c8 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -5217,6 +5217,7 @@ def pspec_run(
             store_window=store_window,
             exact_windows=exact_windows,
             ftbeam=ftbeam,
+            allow_fft=allow_fft,
         )
 
         # Store output
-- 
2.43.0


From 79fefafd71e2b717f6e1eea9c51ed94588f1d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 081/137] fix: boolean command-line options understand False

---
 src/hera_pspec/grouping.py  |  6 +++---
 src/hera_pspec/pspecdata.py |  2 +-
 src/hera_pspec/utils.py     | 11 +++++++++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index fe8700a..00808e1 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -2142,7 +2142,7 @@ def get_bootstrap_run_argparser():
     a.add_argument(
         "--time_avg",
         default=False,
-        type=bool,
+        type=utils.str_to_bool,
         help="Perform time-average in averaging step.",
     )
     a.add_argument(
@@ -2160,13 +2160,13 @@ def get_bootstrap_run_argparser():
     a.add_argument(
         "--normal_std",
         default=True,
-        type=bool,
+        type=utils.str_to_bool,
         help="Whether to calculate a 'normal' standard deviation (np.std).",
     )
     a.add_argument(
         "--robust_std",
         default=False,
-        type=bool,
+        type=utils.str_to_bool,
         help="Whether to calculate a 'robust' standard deviation (astropy.stats.biweight_midvariance).",
     )
     a.add_argument(
diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index b3464c8..136d001 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -5496,7 +5496,7 @@ def get_pspec_run_argparser():
     a.add_argument(
         "--symmetric_taper",
         default=True,
-        type=bool,
+        type=utils.str_to_bool,
         help="If True, apply sqrt of taper before foreground filtering and then another sqrt after. If False, apply full taper after foreground Filter. ",
     )
     a.add_argument(
diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 0eeabc1..cfc7737 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1730,6 +1730,17 @@ def uvp_noise_error(
         apply_P_SN_correction(uvp, P_SN="P_SN", P_N=precomp_P_N)
 
 
+def str_to_bool(value):
+    """
+    Convert the string value of a command-line option to a boolean.
+    """
+    if value.lower() in ("true", "t", "yes", "1"):
+        return True
+    if value.lower() in ("false", "f", "no", "0"):
+        return False
+    raise argparse.ArgumentTypeError(f"expected True or False, got {value!r}")
+
+
 def uvp_noise_error_parser():
     """
     Get argparser to generate noise error bars using autos
-- 
2.43.0


From 8e7baf32e25fcc55c2c019071566827d2c505195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 082/137] fix: bootstrap_run.py does not pass its profiling
 options on

---
 scripts/bootstrap_run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/bootstrap_run.py b/scripts/bootstrap_run.py
index 1464ab6..8a11c1c 100755
--- a/scripts/bootstrap_run.py
+++ b/scripts/bootstrap_run.py
@@ -4,14 +4,14 @@ Pipeline script to load a PSpecContainer and bootstrap over redundant baseline-
 pair groups to produce errorbars.
 """
 
-from hera_cal._cli_tools import parse_args, run_with_profiling
+from hera_cal._cli_tools import filter_kwargs, parse_args, run_with_profiling
 
 from hera_pspec import grouping
 
 # Parse commandline args
 args = grouping.get_bootstrap_run_argparser()
 a = parse_args(args)
-kwargs = vars(a)  # dict of args
+kwargs = filter_kwargs(vars(a))  # dict of args
 
 # Get arguments
 filename = kwargs.pop("filename")
-- 
2.43.0


From 21552cba0f0df3b8cc384d719cd8ab57abe994f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 083/137] fix: pspec_run.py makes a cosmology of its --cosmo
 numbers

---
 scripts/pspec_run.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/pspec_run.py b/scripts/pspec_run.py
index 03e3e5e..13a9272 100755
--- a/scripts/pspec_run.py
+++ b/scripts/pspec_run.py
@@ -3,7 +3,7 @@ import sys
 
 from hera_cal._cli_tools import filter_kwargs, parse_args, run_with_profiling
 
-from hera_pspec import pspecdata
+from hera_pspec import conversions, pspecdata
 
 # parse args
 args = pspecdata.get_pspec_run_argparser()
@@ -18,6 +18,8 @@ filename = kwargs.pop("filename")
 # we want to compute cross-corr power spectra by default so feed
 # the inverse of the include_autocorrs arg.
 kwargs["include_crosscorrs"] = not (kwargs.pop("exclude_crosscorrs"))
+if kwargs["cosmo"] is not None:
+    kwargs["cosmo"] = conversions.Cosmo_Conversions(*kwargs["cosmo"])
 # get special kwargs
 history = " ".join(sys.argv)
 
-- 
2.43.0


From 4c0f1f289ff0ae7809c2fd830bccc13bd6b563e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:23 +0000
Subject: [PATCH 084/137] fix: uvd_to_Tsys scales each polarization by its own
 beam

The factors were applied by position in the sorted list of polarization
names, not by position in the data; names that depend on the feed
orientation were not found in a beam made from a UVPSpec.
---
 src/hera_pspec/utils.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index cfc7737..00eba33 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1450,10 +1450,14 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
         Estimate of Tsys in Kelvin for each auto-correlation
     """
     uvd = copy.deepcopy(uvd)
-    # get uvd metadata
-    pols = [pol for pol in uvd.get_pols() if pol.upper() in AUTOPOLS]
+    # get uvd metadata: polarization integers hold for any feed orientation
+    pols = [
+        pol
+        for pol in uvd.polarization_array
+        if uvutils.polnum2str(pol).upper() in AUTOPOLS
+    ]
     # if pseudo Stokes pol in pols, substitute for pI
-    pols = sorted(set([pol if pol.upper() in AUTOVISPOLS else "pI" for pol in pols]))
+    pols = sorted(set([pol if pol < 0 else 1 for pol in pols]))
     autobls = [bl for bl in uvd.get_antpairs() if bl[0] == bl[1]]
     uvd.select(bls=autobls, polarizations=pols)
 
@@ -1485,14 +1489,8 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
         )
 
     # convert autos in Jy to Tsys in Kelvin
-    J2K = {pol: beam.Jy_to_mK(uvd.freq_array, pol=pol) / 1e3 for pol in pols}
-    for blpol in uvd.get_antpairpols():
-        bl, pol = blpol[:2], blpol[2]
-        tinds = uvd.antpair2ind(bl)
-        if pol.upper() in STOKPOLS:
-            pol = "pI"
-        pind = pols.index(pol)
-        uvd.data_array[tinds, ..., pind] *= J2K[pol]
+    for pind, pol in enumerate(uvd.polarization_array):
+        uvd.data_array[..., pind] *= beam.Jy_to_mK(uvd.freq_array, pol=pol) / 1e3
 
     if Tsys_outfile is not None:
         uvd.write_uvh5(Tsys_outfile, clobber=True)
-- 
2.43.0


From fd0a96b549f2062b46828e08cf78b0fc56611008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:50 +0000
Subject: [PATCH 085/137] fix: uvp_noise_error needs no autos when P_N is
 precomputed

---
 src/hera_pspec/utils.py | 65 ++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 33 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 00eba33..b58cafd 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1557,14 +1557,9 @@ def uvp_noise_error(
     if isinstance(err_type, str):
         err_type = [err_type]
 
-    # get metadata if needed
-    if precomp_P_N is None:
-        lst_indices = np.unique(auto_Tsys.lst_array, return_index=True)[1]
-        lsts = auto_Tsys.lst_array[sorted(lst_indices)]
-        freqs = np.squeeze(auto_Tsys.freq_array)
-    # calculate scalars for spws and polpairs.
+    # calculate scalars for spws and polpairs if needed
     scalar = {}
-    for spw in uvp.spw_array:
+    for spw in uvp.spw_array if precomp_P_N is None else []:
         for polpair in uvp.polpair_array:
             scalar[(spw, polpair)] = uvp.compute_scalar(
                 spw,
@@ -1576,37 +1571,41 @@ def uvp_noise_error(
     # iterate over spectral window
     for spw in uvp.spw_array:
         # get spw properties
-        spw_range = uvp.get_spw_ranges(spw)[0]
-        spw_start = np.argmin(np.abs(np.squeeze(auto_Tsys.freq_array) - spw_range[0]))
-        spw_stop = spw_start + spw_range[2]
-        taper = uvt.dspec.gen_window(uvp.taper, spw_range[2])
+        if precomp_P_N is None:
+            spw_range = uvp.get_spw_ranges(spw)[0]
+            spw_start = np.argmin(
+                np.abs(np.squeeze(auto_Tsys.freq_array) - spw_range[0])
+            )
+            spw_stop = spw_start + spw_range[2]
+            taper = uvt.dspec.gen_window(uvp.taper, spw_range[2])
         # iterate over blpairs
         for blp in uvp.get_blpairs():
             blp_int = uvp.antnums_to_blpair(blp)
             blp_inds = uvp.blpair_to_indices(blp)
 
-            time_1_selection = uvp.time_1_array[blp_inds]
-            time_2_selection = uvp.time_2_array[blp_inds]
-
-            # get time indices in data
-            times_blp_1 = auto_Tsys.time_array[
-                auto_Tsys.antpair2ind(blp[0][0], blp[0][0])
-            ]
-            times_blp_2 = auto_Tsys.time_array[
-                auto_Tsys.antpair2ind(blp[1][0], blp[1][0])
-            ]
-
-            # This time matching is at roughly 1 second tolerance.
-            # Interleaves with < 1 second cadence could run into trouble.
-            # I don't anticipate this being a problem with HERA's 10 second interleave time.
-            tinds1 = [
-                np.where(np.isclose(times_blp_1, t, atol=1e-5, rtol=0))[0][0]
-                for t in time_1_selection
-            ]
-            tinds2 = [
-                np.where(np.isclose(times_blp_2, t, atol=1e-5, rtol=0))[0][0]
-                for t in time_2_selection
-            ]
+            if precomp_P_N is None:
+                time_1_selection = uvp.time_1_array[blp_inds]
+                time_2_selection = uvp.time_2_array[blp_inds]
+
+                # get time indices in data
+                times_blp_1 = auto_Tsys.time_array[
+                    auto_Tsys.antpair2ind(blp[0][0], blp[0][0])
+                ]
+                times_blp_2 = auto_Tsys.time_array[
+                    auto_Tsys.antpair2ind(blp[1][0], blp[1][0])
+                ]
+
+                # This time matching is at roughly 1 second tolerance.
+                # Interleaves with < 1 second cadence could run into trouble.
+                # I don't anticipate this being a problem with HERA's 10 second interleave time.
+                tinds1 = [
+                    np.where(np.isclose(times_blp_1, t, atol=1e-5, rtol=0))[0][0]
+                    for t in time_1_selection
+                ]
+                tinds2 = [
+                    np.where(np.isclose(times_blp_2, t, atol=1e-5, rtol=0))[0][0]
+                    for t in time_2_selection
+                ]
 
             # iterate over polarization
             for polpair in uvp.polpair_array:
-- 
2.43.0


From fe767cb6cfd45c11dff043f81564dc299db8d164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 086/137] fix: uvp_noise_error gives no zero error bars when
 times are flagged

With one unflagged time, or unflagged channels only where the taper
vanishes, the mean Tsys of a flagged time (zero) was used.
---
 src/hera_pspec/utils.py | 58 ++++++++++++++++++-----------------------
 1 file changed, 26 insertions(+), 32 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index b58cafd..c6df45d 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -13,7 +13,6 @@ import yaml
 from hera_cal import redcal
 from pyuvdata import UVData
 from pyuvdata import utils as uvutils
-from scipy.interpolate import interp1d
 
 from . import __version__
 from .conversions import Cosmo_Conversions
@@ -1498,6 +1497,14 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
     return uvd
 
 
+def _nearest_lst(values, lsts, new_lsts):
+    """
+    Value at the LST nearest to each of new_lsts [radians], across the 2 pi wrap.
+    """
+    dist = np.abs((new_lsts[:, None] - lsts[None] + np.pi) % (2 * np.pi) - np.pi)
+    return values[np.argmin(dist, axis=1)]
+
+
 def uvp_noise_error(
     uvp,
     auto_Tsys=None,
@@ -1653,41 +1660,28 @@ def uvp_noise_error(
                         ]
                     )
 
+                    # get weights, and times that have any weight
+                    wgts1 = np.sum(~Tflag1 * taper, axis=-1)
+                    wgts2 = np.sum(~Tflag2 * taper, axis=-1)
+                    good1, good2 = wgts1 > 1e-10, wgts2 > 1e-10
+
                     # average over frequency
-                    if np.all(Tflag1 | Tflag2):
+                    if (
+                        np.all(Tflag1 | Tflag2)
+                        or not np.any(good1)
+                        or not np.any(good2)
+                    ):
                         # fully flagged
                         Tsys = np.inf
                     else:
-                        # get weights
-                        Tsys1 = np.sum(Tsys1 * ~Tflag1 * taper, axis=-1) / np.sum(
-                            ~Tflag1 * taper, axis=-1
-                        ).clip(1e-20, np.inf)
-                        Tsys2 = np.sum(Tsys2 * ~Tflag2 * taper, axis=-1) / np.sum(
-                            ~Tflag2 * taper, axis=-1
-                        ).clip(1e-20, np.inf)
-                        Tflag1 = np.all(Tflag1, axis=-1)
-                        Tflag2 = np.all(Tflag2, axis=-1)
-                        # interpolate to appropriate LST grid
-                        if (np.count_nonzero(~Tflag1) > 1) & (
-                            np.count_nonzero(~Tflag2) > 1
-                        ):
-                            Tsys1 = interp1d(
-                                lsts[tinds1][~Tflag1],
-                                Tsys1[~Tflag1],
-                                kind="nearest",
-                                bounds_error=False,
-                                fill_value="extrapolate",
-                            )(uvp.lst_1_array[blp_inds])
-                            Tsys2 = interp1d(
-                                lsts[tinds2][~Tflag2],
-                                Tsys2[~Tflag2],
-                                kind="nearest",
-                                bounds_error=False,
-                                fill_value="extrapolate",
-                            )(uvp.lst_2_array[blp_inds])
-                            Tsys = (Tsys1 * Tsys2) ** 0.5
-                        else:
-                            Tsys = (Tsys1[0] * Tsys2[0]) ** 0.5
+                        Tsys1 = np.sum(Tsys1 * ~Tflag1 * taper, axis=-1)[good1]
+                        Tsys2 = np.sum(Tsys2 * ~Tflag2 * taper, axis=-1)[good2]
+                        # use the nearest LST where a time is flagged
+                        lsts1 = uvp.lst_1_array[blp_inds]
+                        lsts2 = uvp.lst_2_array[blp_inds]
+                        Tsys1 = _nearest_lst(Tsys1 / wgts1[good1], lsts1[good1], lsts1)
+                        Tsys2 = _nearest_lst(Tsys2 / wgts2[good2], lsts2[good2], lsts2)
+                        Tsys = (Tsys1 * Tsys2) ** 0.5
 
                     # calculate P_N
                     P_N = uvp.generate_noise_spectra(
-- 
2.43.0


From b787752601d545a5a5c3f993aa777ba47325385c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 087/137] fix: uvp_noise_error finds times among each antenna's
 own times

---
 src/hera_pspec/utils.py | 56 ++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index c6df45d..c28a32c 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1497,6 +1497,19 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
     return uvd
 
 
+def _auto_time_inds(auto_Tsys, ant, times):
+    """
+    Indices of times in the autocorrelations of an antenna.
+    """
+    # This time matching is at roughly 1 second tolerance.
+    # Interleaves with < 1 second cadence could run into trouble.
+    # I don't anticipate this being a problem with HERA's 10 second interleave time.
+    ant_times = auto_Tsys.time_array[auto_Tsys.antpair2ind(ant, ant)]
+    return [
+        np.where(np.isclose(ant_times, t, atol=1e-5, rtol=0))[0][0] for t in times
+    ]
+
+
 def _nearest_lst(values, lsts, new_lsts):
     """
     Value at the LST nearest to each of new_lsts [radians], across the 2 pi wrap.
@@ -1591,27 +1604,12 @@ def uvp_noise_error(
             blp_inds = uvp.blpair_to_indices(blp)
 
             if precomp_P_N is None:
-                time_1_selection = uvp.time_1_array[blp_inds]
-                time_2_selection = uvp.time_2_array[blp_inds]
-
-                # get time indices in data
-                times_blp_1 = auto_Tsys.time_array[
-                    auto_Tsys.antpair2ind(blp[0][0], blp[0][0])
-                ]
-                times_blp_2 = auto_Tsys.time_array[
-                    auto_Tsys.antpair2ind(blp[1][0], blp[1][0])
-                ]
-
-                # This time matching is at roughly 1 second tolerance.
-                # Interleaves with < 1 second cadence could run into trouble.
-                # I don't anticipate this being a problem with HERA's 10 second interleave time.
-                tinds1 = [
-                    np.where(np.isclose(times_blp_1, t, atol=1e-5, rtol=0))[0][0]
-                    for t in time_1_selection
-                ]
-                tinds2 = [
-                    np.where(np.isclose(times_blp_2, t, atol=1e-5, rtol=0))[0][0]
-                    for t in time_2_selection
+                # get time indices in data of each antenna
+                (tinds1a, tinds1b), (tinds2a, tinds2b) = [
+                    [_auto_time_inds(auto_Tsys, ant, times) for ant in bl]
+                    for bl, times in zip(
+                        blp, (uvp.time_1_array[blp_inds], uvp.time_2_array[blp_inds])
+                    )
                 ]
 
             # iterate over polarization
@@ -1629,34 +1627,34 @@ def uvp_noise_error(
                     # select out the interleaving of the times
                     Tsys1 = (
                         auto_Tsys.get_data(blp[0][0], blp[0][0], pol)[
-                            tinds1, spw_start:spw_stop
+                            tinds1a, spw_start:spw_stop
                         ].real
                         * auto_Tsys.get_data(blp[0][1], blp[0][1], pol)[
-                            tinds1, spw_start:spw_stop
+                            tinds1b, spw_start:spw_stop
                         ].real
                     ) ** 0.5
                     Tsys2 = (
                         auto_Tsys.get_data(blp[1][0], blp[1][0], pol)[
-                            tinds2, spw_start:spw_stop
+                            tinds2a, spw_start:spw_stop
                         ].real
                         * auto_Tsys.get_data(blp[1][1], blp[1][1], pol)[
-                            tinds2, spw_start:spw_stop
+                            tinds2b, spw_start:spw_stop
                         ].real
                     ) ** 0.5
                     Tflag1 = (
                         auto_Tsys.get_flags(blp[0][0], blp[0][0], pol)[
-                            tinds1, spw_start:spw_stop
+                            tinds1a, spw_start:spw_stop
                         ]
                         | auto_Tsys.get_flags(blp[0][1], blp[0][1], pol)[
-                            tinds1, spw_start:spw_stop
+                            tinds1b, spw_start:spw_stop
                         ]
                     )
                     Tflag2 = (
                         auto_Tsys.get_flags(blp[1][0], blp[1][0], pol)[
-                            tinds2, spw_start:spw_stop
+                            tinds2a, spw_start:spw_stop
                         ]
                         | auto_Tsys.get_flags(blp[1][1], blp[1][1], pol)[
-                            tinds2, spw_start:spw_stop
+                            tinds2b, spw_start:spw_stop
                         ]
                     )
 
-- 
2.43.0


From b39a4ed7fa2797281c81fd9467476ed5613f7931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 088/137] fix: uvp_noise_error corrects P_SN with its own P_N
 when only P_SN is asked for

---
 src/hera_pspec/utils.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index c28a32c..b7bae56 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1577,6 +1577,13 @@ def uvp_noise_error(
     if isinstance(err_type, str):
         err_type = [err_type]
 
+    # name under which to store P_N
+    noise_stat = None
+    if "P_N" in err_type:
+        noise_stat = "P_N"
+    elif P_SN_correction and precomp_P_N is None:
+        noise_stat = "_P_N"
+
     # calculate scalars for spws and polpairs if needed
     scalar = {}
     for spw in uvp.spw_array if precomp_P_N is None else []:
@@ -1695,9 +1702,9 @@ def uvp_noise_error(
                 else:
                     P_N = uvp.get_stats(precomp_P_N, key)
 
-                if "P_N" in err_type:
+                if noise_stat is not None:
                     # set stats
-                    uvp.set_stats("P_N", key, P_N)
+                    uvp.set_stats(noise_stat, key, P_N)
 
                 if "P_SN" in err_type:
                     # calculate P_SN: see Tan+2020 and
@@ -1715,9 +1722,13 @@ def uvp_noise_error(
     # P_SN correction
     if P_SN_correction and "P_SN" in err_type:
         if precomp_P_N is None:
-            precomp_P_N = "P_N"
+            precomp_P_N = noise_stat
         apply_P_SN_correction(uvp, P_SN="P_SN", P_N=precomp_P_N)
 
+    # P_N was only needed for the correction
+    if noise_stat == "_P_N":
+        del uvp.stats_array[noise_stat]
+
 
 def str_to_bool(value):
     """
-- 
2.43.0


From 60589c511941c54cdbe751c16518c4436608405c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 089/137] fix: auto_noise_run.py runs

It failed when --spectra was given, and at the end when flushing a container
that is not kept open.
---
 scripts/auto_noise_run.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/auto_noise_run.py b/scripts/auto_noise_run.py
index 8e470e7..e75dcb1 100644
--- a/scripts/auto_noise_run.py
+++ b/scripts/auto_noise_run.py
@@ -24,13 +24,13 @@ def main(args):
     # iterate through spectra and groups,
     # compute noise, and update container.
     for group in groups:
-        if args.spectra is None:
-            spectra = psc.spectra(group)
-        for spec in spectra:
+        for spec in psc.spectra(group):
+            # spectra are named with their group
+            if args.spectra is not None and f"{group}/{spec}" not in args.spectra:
+                continue
             uvp = psc.get_pspec(group, spec)
             utils.uvp_noise_error(uvp, auto_Tsys, err_type=args.err_type)
             psc.set_pspec(group, spec, uvp, overwrite=True)
-    psc.save()
 
 
 parser = utils.uvp_noise_error_parser()
-- 
2.43.0


From c0bce04add95d4f96f1f9050ff0edee02687e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:41 +0000
Subject: [PATCH 090/137] fix: set_stats_slice works on folded spectra

---
 src/hera_pspec/uvpspec.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 4fe07a8..f291add 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1170,8 +1170,10 @@ class UVPSpec:
         bllens = self.get_blpair_seps()
         # iterate over spws
         for i in range(self.Nspws):
-            # get this spw dlys
-            dlys = self.get_dlys(i) * 1e9
+            # get this spw dlys; arrays of folded spectra hold the whole delay
+            # axis, or (once averaged) only its positive end
+            Ndlys = self.data_array[i].shape[1]
+            dlys = self.dly_array[self.spw_dly_array == i][-Ndlys:] * 1e9
             # iterate over blpairs
             for blp in blpairs:
                 # get time-blpair inds
-- 
2.43.0


From 1997121f12935e989b6b491fffea1ddafd3ae323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 091/137] fix: uvd_to_Tsys reads the beam of a UVPSpec in its
 own polarization order

---
 src/hera_pspec/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index b7bae56..881da97 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1461,7 +1461,7 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
     uvd.select(bls=autobls, polarizations=pols)
 
     # construct beam
-    from hera_pspec import pspecbeam, uvpspec
+    from hera_pspec import pspecbeam, uvpspec, uvpspec_utils
 
     if isinstance(beam, str):
         beam = pspecbeam.PSpecBeamUV(beam)
@@ -1470,10 +1470,12 @@ def uvd_to_Tsys(uvd, beam, Tsys_outfile=None):
     elif isinstance(beam, uvpspec.UVPSpec):
         uvp = beam
         if hasattr(uvp, "OmegaP"):
-            # use first pol in each polpair
+            # use first pol in each polpair, in the order of the columns of OmegaP
             uvp_pols = [
                 pp[0] if pp[0].upper() not in STOKPOLS else "pI"
-                for pp in uvp.get_polpairs()
+                for pp in uvpspec_utils.polpair_int2tuple(
+                    uvp.polpair_array, pol_strings=True
+                )
             ]
             Op = {uvp_pol: uvp.OmegaP[:, ii] for ii, uvp_pol in enumerate(uvp_pols)}
             Opp = {uvp_pol: uvp.OmegaPP[:, ii] for ii, uvp_pol in enumerate(uvp_pols)}
-- 
2.43.0


From 5c6b8a630b21e9dc001d8944df4d9d46c0792187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 092/137] fix: rephase_to_dset skips datasets that are not
 drift scans instead of rephasing them again

---
 src/hera_pspec/pspecdata.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 136d001..7ce9846 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4391,17 +4391,21 @@ class PSpecData:
                     "Cannot deal with datasets with more than one phase center"
                 )
 
+            phase_center = next(iter(dset.phase_center_catalog.values()))
+
+            # skip if dataset is not drift phased
+            if phase_center["cat_type"] != "unprojected":
+                if i != dset_index:
+                    warnings.warn(f"Skipping dataset {i} b/c it isn't unprojected")
+                continue
+
             # don't rephase dataset we are using as our LST anchor
             if i == dset_index:
                 # even though not phasing this dset, must set to match all other
                 # dsets due to phasing-check validation
-                dset.phase_center_catalog[0]["cat_type"] = "unknown"
+                phase_center["cat_type"] = "unknown"
                 continue
 
-            # skip if dataset is not drift phased
-            if dset.phase_center_catalog[0]["cat_type"] != "unprojected":
-                warnings.warn(f"Skipping dataset {i} b/c it isn't unprojected")
-
             # convert UVData to DataContainers. Note this doesn't make
             # a copy of the data
             (data, flgs, antpos, ants, freqs, times, lsts, pols) = hc.io.load_vis(
@@ -4440,7 +4444,7 @@ class PSpecData:
 
             # set phasing in UVData object to unknown b/c there isn't a single
             # consistent phasing for the entire data set.
-            dset.phase_center_catalog[0]["cat_type"] = "unknown"
+            phase_center["cat_type"] = "unknown"
 
         if inplace is False:
             return dsets
-- 
2.43.0


From 053e60d9446abcf197585ce1d4b32810f7ca1456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 093/137] fix: rephase_to_dset writes each polarization back
 where the rephased dataset holds it

---
 src/hera_pspec/pspecdata.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 7ce9846..5e612c6 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4381,9 +4381,6 @@ class PSpecData:
                 lst_grid.append(l)
         lst_grid = np.array(lst_grid)
 
-        # get polarization list
-        pol_list = dsets[dset_index].polarization_array.tolist()
-
         # iterate over dsets
         for i, dset in enumerate(dsets):
             if len(dset.phase_center_catalog) > 1:
@@ -4425,6 +4422,7 @@ class PSpecData:
             hc.utils.lst_rephase(data, bls, freqs, dlst, lat=lat)
 
             # re-insert into dataset
+            pol_list = dset.polarization_array.tolist()
             for j, k in enumerate(data.keys()):
                 # get blts indices of basline
                 indices = dset.antpair2ind(k[:2], ordered=False)
@@ -4433,9 +4431,7 @@ class PSpecData:
                 polind = pol_list.index(
                     uvutils.polstr2num(
                         k[-1],
-                        x_orientation=self.dsets[
-                            0
-                        ].telescope.get_x_orientation_from_feeds(),
+                        x_orientation=dset.telescope.get_x_orientation_from_feeds(),
                     )
                 )
 
-- 
2.43.0


From 19656a27dc6fd0cab495397c201e8eb7bb6f22b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 094/137] fix: trim_dset_lsts keeps matching LSTs that round to
 different decimals

---
 src/hera_pspec/pspecdata.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 5e612c6..e3251fe 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4523,16 +4523,20 @@ class PSpecData:
                     "grid, cannot LST trim."
                 )
 
-        # get lst array of each dataset, turn into string and add to common_lsts
-        lst_arrs = []
-        common_lsts = set()
-        for i, dset in enumerate(self.dsets):
-            lsts = ["{lst:0.{tol}f}".format(lst=l, tol=lst_tol) for l in dset.lst_array]
-            lst_arrs.append(lsts)
-            if i == 0:
-                common_lsts = common_lsts.union(set(lsts))
-            else:
-                common_lsts = common_lsts.intersection(set(lsts))
+        def isin(lsts, ref):
+            # which lsts have a counterpart in ref, within tolerance and modulo 2 pi
+            ref = np.unique(ref)
+            ref = np.concatenate([ref[-1:] - 2 * np.pi, ref, ref[:1] + 2 * np.pi])
+            ind = np.clip(np.searchsorted(ref, lsts), 1, ref.size - 1)
+            dist = np.minimum(np.abs(lsts - ref[ind - 1]), np.abs(ref[ind] - lsts))
+            return dist < 10 ** (-lst_tol)
+
+        # get LSTs of the first dataset that are found in all other datasets
+        common_lsts = np.unique(self.dsets[0].lst_array)
+        for dset in self.dsets[1:]:
+            common_lsts = common_lsts[isin(common_lsts, dset.lst_array)]
+        if common_lsts.size == 0:
+            raise ValueError("The datasets in self.dsets have no LSTs in common.")
 
         # cached weights and covariances belong to the untrimmed data
         self.clear_cache()
@@ -4540,7 +4544,7 @@ class PSpecData:
         # iterate through dsets and trim off integrations whose lst isn't
         # in common_lsts
         for i, dset in enumerate(self.dsets):
-            trim_inds = np.array([l not in common_lsts for l in lst_arrs[i]])
+            trim_inds = ~isin(dset.lst_array, common_lsts)
             if np.any(trim_inds):
                 self.dsets[i].select(times=dset.time_array[~trim_inds])
 
-- 
2.43.0


From baf62436fb1e0e6039744e6870cfe056a6a2467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 095/137] fix: uvd_time_difference takes the time difference in
 seconds

---
 src/hera_pspec/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 881da97..6c60b7f 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1401,7 +1401,7 @@ def uvd_time_difference(uvd, time_diff):
     -------
     uvd_td : UVData object
     """
-    min_time_diff = np.mean(
+    min_time_diff = 86400.0 * np.mean(
         np.unique(uvd.time_array)[1:] - np.unique(uvd.time_array)[0:-1]
     )
     index_diff = int(time_diff / min_time_diff) + 1
-- 
2.43.0


From 8fe67719fe280d81e9500881025ba20c2bf40ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:23 +0000
Subject: [PATCH 096/137] fix: uvd_time_difference subtracts the same baseline
 and flags where either time is flagged

---
 src/hera_pspec/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index 6c60b7f..cdcf1d3 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1410,10 +1410,13 @@ def uvd_time_difference(uvd, time_diff):
 
     uvd0 = uvd.select(times=np.unique(uvd.time_array)[0:-1:index_diff], inplace=False)
     uvd1 = uvd.select(times=np.unique(uvd.time_array)[1::index_diff], inplace=False)
+    # order of rows in which the same baselines follow each other in both
+    rows0 = np.lexsort((uvd0.time_array, uvd0.baseline_array))
+    rows1 = np.lexsort((uvd1.time_array, uvd1.baseline_array))
     data0 = uvd0.data_array
-    data1 = uvd1.data_array
-    data0 -= data1
+    data0[rows0] -= uvd1.data_array[rows1]
     uvd0.data_array = data0 / np.sqrt(2)
+    uvd0.flag_array[rows0] |= uvd1.flag_array[rows1]
 
     return uvd0
 
-- 
2.43.0


From 7fbff74ce8de4cc6a33e41dc425183c79190eafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 097/137] fix: exact windows interpolate the beam over the
 whole k_perp plane, not its diagonal

---
 src/hera_pspec/uvwindow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index 33109ff..be00c48 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -627,7 +627,9 @@ class UVWindow:
             A_real = RegularGridInterpolator(
                 (k, k), ft_beam[i], bounds_error=False, fill_value=0.0
             )
-            interp_ft_beam[:, :, i] = A_real(np.array([kgrid, kgrid]).T)
+            interp_ft_beam[:, :, i] = A_real(
+                tuple(np.meshgrid(kgrid, kgrid, indexing="ij"))
+            )
 
         return interp_ft_beam, kperp_norm
 
-- 
2.43.0


From b379e0af2de1e9b0141ee0bbc45985547f993eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 098/137] fix: exact windows of a mixed polarization pair use
 the beam of each polarization

---
 src/hera_pspec/uvwindow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index be00c48..d4ccd00 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -443,7 +443,7 @@ class UVWindow:
         # create FTBeam objects
         ftbeam_obj_pol = []
         for ip, pol in enumerate(polpair):
-            if (ip > 0) and (pol[ip] == pol[0]):
+            if (ip > 0) and (pol == polpair[0]):
                 # do not recompute if two polarisations are identical
                 ftbeam_obj_pol.append(ftbeam_obj_pol[0])
             else:
@@ -475,7 +475,7 @@ class UVWindow:
             + np.where(bandwidth >= freq_array[0] - 1e-9)[0][0]
         )
         for ip in range(2):
-            if (ip > 0) and (pol[ip] == pol[0]):
+            if (ip > 0) and (ftbeam_obj_pol[ip] is ftbeam_obj_pol[0]):
                 continue
             ftbeam_obj_pol[ip].update_spw(spw_range=tuple(spw_range))
 
-- 
2.43.0


From 74cd5e1b41068b1dcee9170210d1643777fb8c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:33 +0000
Subject: [PATCH 099/137] fix: cylindrical windows of an odd number of channels
 stay at their own delay

---
 src/hera_pspec/uvwindow.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index d4ccd00..e29dd2e 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -981,7 +981,8 @@ class UVWindow:
                 self.Nfreqs // 2 + 1 :
             ]
         # except for tau at 1/4 and 3/4 of the spectral window for symmetry reasons
-        _, cyl_wf[self.Nfreqs - self.Nfreqs // 4, :, :] = self._get_wf_for_tau(
+        mirror = 2 * (self.Nfreqs // 2) - self.Nfreqs // 4
+        _, cyl_wf[mirror, :, :] = self._get_wf_for_tau(
             -self.dly_array[self.Nfreqs // 4], wf_array1, kperp_bins, kpara_bins
         )
 
-- 
2.43.0


From 4de8b5dfcb48fa879a1e6c976749f3bf70d43e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 100/137] fix: default k_perp bins exist for baselines of zero
 or very short length

---
 src/hera_pspec/uvwindow.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index e29dd2e..9ba1562 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -766,7 +766,10 @@ class UVWindow:
         if bl_lens.size == 0:
             raise ValueError("get_kperp_bins() requires array of baseline lengths.")
 
-        dk_perp = np.diff(self._get_kgrid(np.min(bl_lens))[1]).mean() * 5
+        kgrid, kperp_norm = self._get_kgrid(np.min(bl_lens))
+        # never finer than the grid itself: around the origin of the k_perp plane
+        # the differences cancel in the mean
+        dk_perp = max(np.diff(kperp_norm).mean() * 5, kgrid[1] - kgrid[0])
         kperp_max = (
             self.cosmo.bl_to_kperp(self.avg_z, little_h=self.little_h) * np.max(bl_lens)
             + 10.0 * dk_perp
-- 
2.43.0


From a73b2a629739ed02ac29f9f01dd03a4433961092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 101/137] fix: trim_dset_lsts trims the weights and standard
 deviations of a dataset along with it

---
 src/hera_pspec/pspecdata.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index e3251fe..60c6d88 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4544,9 +4544,13 @@ class PSpecData:
         # iterate through dsets and trim off integrations whose lst isn't
         # in common_lsts
         for i, dset in enumerate(self.dsets):
-            trim_inds = ~isin(dset.lst_array, common_lsts)
-            if np.any(trim_inds):
-                self.dsets[i].select(times=dset.time_array[~trim_inds])
+            # the weights and errors of a dataset are trimmed along with it
+            for uvd in (dset, self.wgts[i], self.dsets_std[i]):
+                if uvd is None:
+                    continue
+                trim_inds = ~isin(uvd.lst_array, common_lsts)
+                if np.any(trim_inds):
+                    uvd.select(times=uvd.time_array[~trim_inds])
 
 
 def pspec_run(
-- 
2.43.0


From cff45dfdfed669d8326db08b638d51bffec9d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:06 +0000
Subject: [PATCH 102/137] fix: Jy_to_mK converts standard deviations, and
 datasets with different polarizations

---
 src/hera_pspec/pspecdata.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 60c6d88..e12de17 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4447,18 +4447,16 @@ class PSpecData:
 
     def Jy_to_mK(self, beam=None):
         r"""
-        Convert internal datasets from a Jy-scale to mK scale using a primary
-        beam model if available. Note that if you intend to rephase_to_dset(),
-        Jy to mK conversion must be done *after* that step.
+        Convert internal datasets (and their standard deviations, if any) from a
+        Jy-scale to mK scale using a primary beam model if available. Note that
+        if you intend to rephase_to_dset(), Jy to mK conversion must be done
+        *after* that step.
 
         Parameters
         ----------
         beam : PSpecBeam object
             Beam object.
         """
-        # get all unique polarizations of all the datasets
-        pols = set(np.ravel([dset.polarization_array for dset in self.dsets]))
-
         # assign beam
         if beam is None:
             beam = self.primary_beam
@@ -4478,16 +4476,19 @@ class PSpecData:
             "beam model must be a subclass of pspecbeam.PSpecBeamBase"
         )
 
-        # iterate over all pols and get conversion factors
-        factors = {}
-        for p in pols:
-            factors[p] = beam.Jy_to_mK(self.freqs, pol=p)
+        # get conversion factors for all pols of all datasets and their errors
+        uvds = list(enumerate(self.dsets))
+        uvds += [(i, s) for i, s in enumerate(self.dsets_std) if s is not None]
+        factors = [
+            {p: beam.Jy_to_mK(uvd.freq_array, pol=p) for p in uvd.polarization_array}
+            for _, uvd in uvds
+        ]
 
         # cached covariances were computed from the unconverted data
         self.clear_cache()
 
         # iterate over datasets and apply factor
-        for i, dset in enumerate(self.dsets):
+        for (i, dset), factor in zip(uvds, factors):
             # check dset vis units
             if dset.vis_units.upper() != "JY":
                 if dset.vis_units.upper() != "MK":
@@ -4496,7 +4497,7 @@ class PSpecData:
                     )
                 continue
             for j, p in enumerate(dset.polarization_array):
-                dset.data_array[:, :, j] *= factors[p][None, :]
+                dset.data_array[:, :, j] *= factor[p][None, :]
             dset.vis_units = "mK"
 
     def trim_dset_lsts(self, lst_tol=6):
-- 
2.43.0


From b764a6a4c0d9be8faecef9d81131f02e440992d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 103/137] fix: PSpecBeamFromArray leaves the caller's dicts of
 solid angles unchanged

---
 src/hera_pspec/pspecbeam.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hera_pspec/pspecbeam.py b/src/hera_pspec/pspecbeam.py
index 2d002b5..b0ed827 100644
--- a/src/hera_pspec/pspecbeam.py
+++ b/src/hera_pspec/pspecbeam.py
@@ -666,6 +666,9 @@ class PSpecBeamFromArray(PSpecBeamBase):
         if not isinstance(OmegaP, dict) or not isinstance(OmegaPP, dict):
             raise TypeError("OmegaP and OmegaPP must both be either dicts or arrays.")
 
+        # Work on copies: the keys of the caller's dicts are left as they are
+        OmegaP, OmegaPP = dict(OmegaP), dict(OmegaPP)
+
         # Check for disallowed polarizations
         for key in list(OmegaP.keys()):
             # turn into pol integer if a pol string
-- 
2.43.0


From a2965ac9fc21a67d8a874138cf1d467bd7d1df99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 104/137] fix: PSpecBeamGauss accepts any array-like of
 frequencies, as documented

---
 src/hera_pspec/pspecbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecbeam.py b/src/hera_pspec/pspecbeam.py
index b0ed827..b56750a 100644
--- a/src/hera_pspec/pspecbeam.py
+++ b/src/hera_pspec/pspecbeam.py
@@ -368,7 +368,7 @@ class PSpecBeamGauss(PSpecBeamBase):
             specified. Default: None.
         """
         self.fwhm = fwhm
-        self.beam_freqs = beam_freqs
+        self.beam_freqs = np.asarray(beam_freqs)
         if cosmo is not None:
             self.cosmo = cosmo
         else:
-- 
2.43.0


From 55884b08e34cdb6c513bf7ab0fb8187c4a908013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:19 +0000
Subject: [PATCH 105/137] fix: PSpecBeamUV leaves the caller's efield beam
 unchanged

---
 src/hera_pspec/pspecbeam.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecbeam.py b/src/hera_pspec/pspecbeam.py
index b56750a..4802edc 100644
--- a/src/hera_pspec/pspecbeam.py
+++ b/src/hera_pspec/pspecbeam.py
@@ -476,7 +476,8 @@ class PSpecBeamUV(PSpecBeamBase):
         # setup primary power beam
         self.primary_beam = uvb
         if uvb.beam_type == "efield":
-            self.primary_beam.efield_to_power(inplace=True)
+            # convert a copy: the caller's beam stays an efield beam
+            self.primary_beam = uvb.efield_to_power(inplace=False)
             self.primary_beam.peak_normalize()
 
     def beam_normalized_response(self, pol="pI", freq=None, x_orientation=None):
-- 
2.43.0


From ba17151734bd24e53f5e5a8e990aecd51bfbb3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 106/137] fix: delay_waterfall with component='abs-imag' shows
 the imaginary part

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index bf71cb7..a29c30e 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -721,7 +721,7 @@ def delay_waterfall(
             elif component == "imag":
                 power = np.imag(power)
             elif component == "abs-imag":
-                power = np.abs(np.real(power))
+                power = np.abs(np.imag(power))
 
             # if real or imag and log is True, set negative values to near zero
             # this is done so that one can use cmap.set_under() and cmap.set_bad() separately
-- 
2.43.0


From eedb0e7ed90346d8b6109617bf28f21f4ae43a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 107/137] fix: delay_waterfall blanks flagged integrations, and
 only those, for every component

---
 src/hera_pspec/plot.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index a29c30e..f27a257 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -707,10 +707,6 @@ def delay_waterfall(
             key = (spw, blp, pol)
             # get power data
             power = uvp_plt.get_data(key, omit_flags=False)
-            # set flagged power data to nan
-            flags = np.isclose(uvp_plt.get_integrations(key), 0.0)
-            power[flags, :] = np.nan
-
             # get component
             if component == "abs":
                 power = np.abs(power)
@@ -723,10 +719,14 @@ def delay_waterfall(
             elif component == "abs-imag":
                 power = np.abs(np.imag(power))
 
+            # set flagged power data to nan
+            flags = np.isclose(uvp_plt.get_integrations(key), 0.0)
+            power[flags, :] = np.nan
+
             # if real or imag and log is True, set negative values to near zero
             # this is done so that one can use cmap.set_under() and cmap.set_bad() separately
             if fix_negval:
-                power[power < 0] = np.abs(power).min() * 1e-6 + 1e-10
+                power[power < 0] = np.nanmin(np.abs(power)) * 1e-6 + 1e-10
 
             # assign to waterfall
             waterfall[key] = power
-- 
2.43.0


From 7b16046264f51b3dcbaeef6716b7f54bb6f04c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 108/137] fix: delay_wedge plots only the requested
 baseline-pairs when no times are given

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index f27a257..4e7df1f 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1075,7 +1075,7 @@ def delay_wedge(
         fig = ax.get_figure()
 
     # Select out times and blpairs if provided
-    if times is not None:
+    if times is not None or blpairs is not None:
         uvp.select(blpairs=blpairs, times=times, inplace=True)
 
     # Average across redundant groups and time
-- 
2.43.0


From 8b87952342f6e4dfa55f687b4414240bfc42a197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 109/137] fix: plot_uvdata_waterfalls adds a format extension
 only where it is missing

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 4e7df1f..137d4ff 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1418,7 +1418,7 @@ def plot_uvdata_waterfalls(
         outfile = basename.format(bl="%d.%d" % (ant1, ant2), pol=pol)
         if format is not None:
             # Make sure format extension is given
-            if outfile[-len(format)].lower() != format.lower():
+            if outfile[-len(format) :].lower() != format.lower():
                 outfile = "%s.%s" % (outfile, format)
         fig.tight_layout()
         fig.savefig(outfile, format=format)
-- 
2.43.0


From 169ec098df401d063d13c08bc08e8a8ab5046bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:22 +0000
Subject: [PATCH 110/137] fix: plots in delay units are not labelled as Delta^2

---
 src/hera_pspec/plot.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 137d4ff..8429cf9 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -296,6 +296,9 @@ def delay_spectrum(
     """
     import matplotlib.pyplot as plt
 
+    # Delta^2 is only available in cosmological units
+    deltasq = deltasq and not delay
+
     # Create new Axes if none specified
     new_plot = False
     if ax is None:
@@ -329,7 +332,7 @@ def delay_spectrum(
         )
 
     # Convert to Delta^2 units if requested
-    if deltasq and not delay:
+    if deltasq:
         uvp_plt.convert_to_deltasq()
 
     # Fold the power spectra if requested
@@ -665,6 +668,9 @@ def delay_waterfall(
     )
     fix_negval = component in ["real", "imag"] and log
 
+    # Delta^2 is only available in cosmological units
+    deltasq = deltasq and not delay
+
     # Add ungrouped baseline-pairs into a group of their own (expected by the
     # averaging routines) and reject malformed baseline tuples up front.
     blpairs = _normalize_plot_blpairs(uvp, blpairs, "delay_waterfall")
@@ -687,7 +693,7 @@ def delay_waterfall(
         uvp_plt.fold_spectra()
 
     # Convert to Delta^2 units if requested
-    if deltasq and not delay:
+    if deltasq:
         uvp_plt.convert_to_deltasq()
 
     # Get x-axis units (delays in ns, or k_parallel in Mpc^-1 or h Mpc^-1)
@@ -1063,6 +1069,9 @@ def delay_wedge(
     assert isinstance(pol, (int, np.integer, tuple))
     fix_negval = component in ["real", "imag"] and log10
 
+    # Delta^2 is only available in cosmological units
+    deltasq = deltasq and not delay
+
     # check pspec units for little h
     little_h = "h^-3" in uvp.norm_units
 
@@ -1098,7 +1107,7 @@ def delay_wedge(
         )
 
     # Convert to DeltaSq
-    if deltasq and not delay:
+    if deltasq:
         uvp.convert_to_deltasq(inplace=True)
 
     # Fold array
-- 
2.43.0


From 6cdd70502b5c421550149372957646c7c27646d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:36 +0000
Subject: [PATCH 111/137] fix: delay_wedge puts each baseline length at its own
 k_perp

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index 8429cf9..fe98a12 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1120,7 +1120,7 @@ def delay_wedge(
         y_axis = blpair_seps
     else:
         x_axis = uvp.get_kparas(spw, little_h=little_h)
-        y_axis = uvp.get_kperps(spw, little_h=little_h)
+        y_axis = uvp.get_kperps(spw, little_h=little_h)[osort]
     if rotate:
         _x_axis = y_axis
         y_axis = x_axis
-- 
2.43.0


From 946bcc5f00f975be3bd24324dad644577ec2e4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:26 +0000
Subject: [PATCH 112/137] fix: plot_uvdata_waterfalls plots flags without
 explicit colour limits

---
 src/hera_pspec/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index fe98a12..b3346ae 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -1411,7 +1411,7 @@ def plot_uvdata_waterfalls(
         if data == "data":
             pass
         elif data == "flags":
-            d = uvd.get_flags((ant1, ant2, pol))
+            d = uvd.get_flags((ant1, ant2, pol)).astype(float)
         elif data == "nsamples":
             d = uvd.get_nsamples((ant1, ant2, pol))
         else:
-- 
2.43.0


From b60264ba1304e21c4f3a7f63e7f0003fedab71db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:41 +0000
Subject: [PATCH 113/137] fix: PSpecData can be constructed from a dict of
 datasets without weights

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index e12de17..00c38b5 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -90,7 +90,7 @@ class PSpecData:
         self.taper = "none"
         self.symmetric_taper = True
         # Set all weights to None if wgts=None
-        if wgts is None:
+        if wgts is None and not isinstance(dsets, dict):
             wgts = [None for dset in dsets]
 
         # set dsets_std to None if any are None.
-- 
2.43.0


From 80f8c18109566100d7cd0ca012b4988449acf185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 114/137] fix: Sensitivity.set_cosmology keeps an attached beam
 consistent

---
 src/hera_pspec/noise.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hera_pspec/noise.py b/src/hera_pspec/noise.py
index cc6241d..63d6f97 100644
--- a/src/hera_pspec/noise.py
+++ b/src/hera_pspec/noise.py
@@ -125,6 +125,9 @@ class Sensitivity:
             cosmo = conversions.Cosmo_Conversions(**cosmo)
         self.cosmo = cosmo
         self.cosmo_params = str(self.cosmo.get_params())
+        # keep an attached beam consistent with self.cosmo
+        if hasattr(self, "beam"):
+            self.beam.cosmo = self.cosmo
 
     def set_beam(self, beam: PSpecBeamBase) -> None:
         """
-- 
2.43.0


From eb313bc672da1db31e2a30f20fc80e620b686723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 115/137] fix: apply_bias_correction with a missing window
 leaves the object unchanged

---
 src/hera_pspec/loss.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/hera_pspec/loss.py b/src/hera_pspec/loss.py
index bd7dd4e..57f05b3 100644
--- a/src/hera_pspec/loss.py
+++ b/src/hera_pspec/loss.py
@@ -32,6 +32,13 @@ def apply_bias_correction(
     UVPSpec
         The bias-corrected UVPSpec object.
     """
+    # check factors before anything is changed
+    for bias in (total_bias, data_bias):
+        if bias is not None:
+            missing = [spw for spw in uvp.spw_array if spw not in bias]
+            if missing:
+                raise KeyError(f"no bias correction given for spw {missing}")
+
     if not inplace:
         uvp = copy.deepcopy(uvp)
 
-- 
2.43.0


From 6d09e93e93e8b36c34d9a2230b4487a12ff64167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 116/137] fix: noise_sim extends the time axis without gaps

---
 src/hera_pspec/testing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index 0ae7c14..81addf6 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -424,9 +424,9 @@ def noise_sim(
         _data = copy.deepcopy(data)
         dt = np.median(np.diff(np.unique(_data.time_array)))
         dl = np.median(np.diff(np.unique(_data.lst_array)))
-        for i in range(Nextend):
-            _data.time_array += dt * _data.Ntimes * (i + 1)
-            _data.lst_array += dl * _data.Ntimes * (i + 1)
+        for _ in range(Nextend):
+            _data.time_array += dt * _data.Ntimes
+            _data.lst_array += dl * _data.Ntimes
             _data.lst_array %= 2 * np.pi
             data += _data
 
-- 
2.43.0


From 656ea3ab13ff9c6be179bc5d29b02fe43183ebcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 117/137] fix: noise_sim extends the time axis of the caller's
 object when in place

---
 src/hera_pspec/testing.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index 81addf6..99fb182 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -420,7 +420,6 @@ def noise_sim(
         assert data.phase_center_catalog[0]["cat_type"] == "unprojected", (
             "data must be unprojected in order to extend along time axis"
         )
-        data = copy.deepcopy(data)
         _data = copy.deepcopy(data)
         dt = np.median(np.diff(np.unique(_data.time_array)))
         dl = np.median(np.diff(np.unique(_data.lst_array)))
-- 
2.43.0


From c8767f47f62456b3f9b38eb8b52598c3ab09431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:54 +0000
Subject: [PATCH 118/137] fix: noise_sim in Jy sets the units of its output

---
 src/hera_pspec/testing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index 99fb182..fe7bd8d 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -455,6 +455,7 @@ def noise_sim(
             [np.sqrt(2) if p in [1, 2, 3, 4] else 1.0 for p in data.polarization_array]
         )
         rms = K_to_Jy * Trms
+        data.vis_units = "Jy"
     else:
         rms = Trms
 
-- 
2.43.0


From 780666f4c24747973df7c48bca4de18a13d3a5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:49 +0000
Subject: [PATCH 119/137] fix: spherical_average tells bins without data by
 their weights

Statistics below 1e-8 in the units of the power were all replaced by 1e40,
while bins without data kept tiny error bars when the power is large.
---
 src/hera_pspec/grouping.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 00808e1..0aa8ae4 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1110,6 +1110,8 @@ def spherical_average(
 
         if store_stats:
             # bin stats: C_sph = H.T C_cyl H
+            # bins without (weighted) data: sum of weights is zero, otherwise one
+            empty = np.isclose(np.einsum("ptik,tikp->tkp", H, A[spw]), 0)
             for stat in stats_array:
                 # get squared stat and clip infs b/c linalg doesn't like them
                 sq_stat = stats_array[stat][spw].copy()
@@ -1120,7 +1122,7 @@ def spherical_average(
                     np.einsum("ptik,tip,ptik->tkp", H, sq_stat.clip(0, 1e40), H)
                 )
                 # set zeroed stats to large number
-                avg_stat[np.isclose(avg_stat, 0)] = 1e40
+                avg_stat[empty | (avg_stat == 0)] = 1e40
                 # update stats_array
                 stats_array[stat][spw] = avg_stat
 
-- 
2.43.0


From 7fc0f0311b7e9f3bedc1b2f009d76e079059b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 120/137] fix: V^-1/2 normalization cuts eigenvalues relative
 to the largest

The absolute cut at 1e-20 removed all of them (NaN spectra) for data that are
small, or large with inverse covariance weighting.
---
 src/hera_pspec/pspecdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 00c38b5..0654e8e 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2610,7 +2610,8 @@ class PSpecData:
             # First find the eigenvectors and eigenvalues of the unnormalizd covariance
             # Then use it to compute V^-1/2
             eigvals, eigvects = np.linalg.eigh(band_covar)
-            nonpos_eigvals = eigvals <= 1e-20
+            # relative to the largest one: the covariance has the units of the data
+            nonpos_eigvals = eigvals <= 1e-20 * np.max(np.abs(eigvals))
             if (nonpos_eigvals).any():
                 raise_warning(
                     "At least one non-positive eigenvalue for the "
-- 
2.43.0


From 2fbd363c10bc9a1829aa5f14b38b9a739f968248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 121/137] fix: supplied covariances may depend on time in their
 cross pieces alone

The error bars of the first integration were copied to all the others when
only C11 and C22 were constant in time.
---
 src/hera_pspec/pspecdata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 0654e8e..c47f2a3 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2191,7 +2191,9 @@ class PSpecData:
             # the empirical covariance is averaged over time, so it never depends on time
             check_uniform_input = uniform_M and (
                 (model == "empirical" and known_cov is None)
-                or all(
+                # any of the supplied pieces may depend on time, not just C11 and C22
+                or model in ("autos", "dsets")
+                and all(
                     np.array_equal(
                         self.C_model(
                             key, model=model, known_cov=known_cov, time_index=0
-- 
2.43.0


From 86fab3181f6d03d2976a88fb49dc532ecae6c4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:28 +0000
Subject: [PATCH 122/137] fix: supplied covariances do not leak into later
 weights and normalizations

C_model stored them in the cache of internal covariances, so that the V^-1/2
normalization of later baseline-pairs sharing a baseline used them.
---
 src/hera_pspec/pspecdata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index c47f2a3..fee1ee4 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -758,12 +758,12 @@ class PSpecData:
             # add model to key
             Ckey = ((dset, dset), (bl, bl)) + (model, time_index, False, True)
 
-        # Check if Ckey exists in known_cov. If so, just update self._C[Ckey] with known_cov.
+        # Check if Ckey exists in known_cov. If so, return it, but leave the cache alone:
+        # weights and normalizations are not computed from known_cov.
         if known_cov is not None:
             if Ckey in known_cov.keys():
                 spw = slice(*self.get_spw(include_extension=include_extension))
-                covariance = known_cov[Ckey][spw, spw]
-                self.set_C({Ckey: covariance})
+                return known_cov[Ckey][spw, spw]
 
         # check cache
         if Ckey not in self._C:
-- 
2.43.0


From 50447f99a6fad8c729497718f3cdd13189757fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:15 +0000
Subject: [PATCH 123/137] fix: error bars of a baseline with itself are not NaN

Rounding makes the variance of the imaginary part slightly negative, and the
complex product with its square root turned the real error bar into NaN too.
---
 src/hera_pspec/pspecdata.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index fee1ee4..a179eba 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -4002,11 +4002,7 @@ class PSpecData:
                                     np.real(cov_imag).astype(np.float64)
                                 )
                             if store_cov_diag:
-                                stats = np.sqrt(
-                                    np.diagonal(np.real(cov_real), axis1=1, axis2=2)
-                                ) + 1.0j * np.sqrt(
-                                    np.diagonal(np.real(cov_imag), axis1=1, axis2=2)
-                                )
+                                stats = _cov_diag_stats(cov_real, cov_imag)
                                 pol_stats_array_cov_model.extend(stats)
                         else:
                             if store_cov:
@@ -4017,11 +4013,7 @@ class PSpecData:
                                     np.real(cov_q_imag).astype(np.float64)
                                 )
                             if store_cov_diag:
-                                stats = np.sqrt(
-                                    np.diagonal(np.real(cov_q_real), axis1=1, axis2=2)
-                                ) + 1.0j * np.sqrt(
-                                    np.diagonal(np.real(cov_q_imag), axis1=1, axis2=2)
-                                )
+                                stats = _cov_diag_stats(cov_q_real, cov_q_imag)
                                 pol_stats_array_cov_model.extend(stats)
 
                     # store the window_function
@@ -5550,6 +5542,31 @@ def get_pspec_run_argparser():
     return a
 
 
+def _cov_diag_stats(cov_real, cov_imag):
+    """
+    Error bars from the diagonals of the covariances of the real and imaginary
+    parts of the bandpowers.
+
+    The spectrum of a baseline with itself is real, so that the variance of its
+    imaginary part is zero up to rounding of either sign.
+
+    Parameters
+    ----------
+    cov_real, cov_imag : array_like
+        Covariances, of shape (Ntimes, Ndlys, Ndlys).
+
+    Returns
+    -------
+    stats : ndarray, complex
+        Standard deviations of the real and imaginary parts, (Ntimes, Ndlys).
+    """
+    cov_real, cov_imag = np.real(cov_real), np.real(cov_imag)
+    stats = np.empty(cov_real.shape[:2], dtype=np.complex128)
+    stats.real = np.sqrt(np.diagonal(cov_real, axis1=1, axis2=2).clip(min=0.0))
+    stats.imag = np.sqrt(np.diagonal(cov_imag, axis1=1, axis2=2).clip(min=0.0))
+    return stats
+
+
 def validate_blpairs(blpairs, uvd1, uvd2, baseline_tol=1.0, verbose=True):
     """
     Validate baseline pairings in the blpair list are redundant within the
-- 
2.43.0


From ce324c78abd7db45cfbd2aa261ac115c3fca9f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:22 +0000
Subject: [PATCH 124/137] fix: PSpecData calibrates a dataset given twice only
 once, and not the caller's data

---
 src/hera_pspec/pspecdata.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index a179eba..be719be 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -253,19 +253,18 @@ class PSpecData:
                 for i in range(len(self.dsets), len(dsets) + len(self.dsets))
             ]
 
-        # Apply calibration if provided
-        for dset, dset_std, cal in zip(dsets, dsets_std, cals):
-            if cal is not None:
-                if dset is not None:
-                    uvutils.uvcalibrate(dset, cal, inplace=True, prop_flags=cal_flag)
-                    dset.extra_keywords["calibration"] = cal.extra_keywords.get(
-                        "filename", '""'
-                    )
-                if dset_std is not None:
-                    uvutils.uvcalibrate(
-                        dset_std, cal, inplace=True, prop_flags=cal_flag
+        # Apply calibration if provided (to copies, as one object may stand for
+        # several datasets or error sets, each of which is to be calibrated once)
+        dsets, dsets_std = list(dsets), list(dsets_std)
+        for i, cal in enumerate(cals):
+            if cal is None:
+                continue
+            for uvds in (dsets, dsets_std):
+                if uvds[i] is not None:
+                    uvds[i] = uvutils.uvcalibrate(
+                        uvds[i], cal, inplace=False, prop_flags=cal_flag
                     )
-                    dset_std.extra_keywords["calibration"] = cal.extra_keywords.get(
+                    uvds[i].extra_keywords["calibration"] = cal.extra_keywords.get(
                         "filename", '""'
                     )
 
-- 
2.43.0


From 7e478fe85b856062afca8af8b5d8a12fc6d9141f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:22 +0000
Subject: [PATCH 125/137] fix: PSpecData accepts one calibration for all
 datasets, as documented

---
 src/hera_pspec/pspecdata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index be719be..36bd787 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -143,7 +143,8 @@ class PSpecData:
             and if dsets is a list, will assume dsets_std is a list.
 
         cals : UVCal or list, optional
-            UVCal objects to apply to data.
+            UVCal objects to apply to data. One per dset or
+            one for all dsets.
 
         cal_flag : bool, optional
             If True, propagate flags from calibration into data
@@ -186,7 +187,7 @@ class PSpecData:
         if isinstance(dsets_std, UVData):
             dsets_std = [dsets_std]
         if isinstance(cals, UVCal):
-            cals = [cals]
+            cals = [cals for m in range(len(dsets))]
         if wgts is None:
             wgts = [wgts]
         if dsets_std is None:
-- 
2.43.0


From 3142701c329e6cedb86a58d0566977cf3d5a0964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:49 +0000
Subject: [PATCH 126/137] fix: cov_p_hat conjugates the second normalization
 matrix, as documented

---
 src/hera_pspec/pspecdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 36bd787..0a7c2e3 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -2873,7 +2873,7 @@ class PSpecData:
         """
         p_cov = np.zeros_like(q_cov)
         for tnum in range(len(p_cov)):
-            p_cov[tnum] = np.einsum("ab,cd,bd->ac", M, M, q_cov[tnum])
+            p_cov[tnum] = np.einsum("ab,cd,bd->ac", M, np.conj(M), q_cov[tnum])
         return p_cov
 
     def broadcast_dset_flags(self, spw_ranges=None, time_thresh=0.2, unflag=False):
-- 
2.43.0


From ac01ad1f5ce1f9133397a3d01b6ad50f4b07c2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:44 +0000
Subject: [PATCH 127/137] fix: files with Nblpairts can be read in part

---
 src/hera_pspec/uvpspec.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index f291add..81a2c1b 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1848,6 +1848,23 @@ class UVPSpec:
         if "exact_windows" not in grp.attrs:
             setattr(self, "exact_windows", False)
 
+        # BACKWARDS COMPATIBILITY for files with Nblpairts.
+        # Check whether we are reading a pre Nbltpairs file by looking for the
+        # Nblpairts field.
+        if hasattr(self, "Nblpairts"):
+            reading_old_version = True
+            setattr(self, "Nbltpairs", self.Nblpairts)
+        else:
+            reading_old_version = False
+
+        if reading_old_version:
+            # If we are reading a power spectrum object that was written in the pre-Nbltpairs days
+            # then make sure to correctly set Ntimes and Ntpairs.
+            self.Ntpairs = len(
+                set([(t1, t2) for t1, t2 in zip(self.time_1_array, self.time_2_array)])
+            )
+            self.Ntimes = self.Ntpairs
+
         # Use _select() to pick out only the requested baselines/spws
         if just_meta:
             uvputils._select(
@@ -1877,23 +1894,6 @@ class UVPSpec:
         if hasattr(self, "cosmo"):
             self.cosmo = conversions.Cosmo_Conversions(**ast.literal_eval(self.cosmo))
 
-        # BACKWARDS COMPATIBILITY for files with Nblpairts.
-        # Check whether we are reading a pre Nbltpairs file by looking for the
-        # Nblpairts field.
-        if hasattr(self, "Nblpairts"):
-            reading_old_version = True
-            setattr(self, "Nbltpairs", self.Nblpairts)
-        else:
-            reading_old_version = False
-
-        if reading_old_version:
-            # If we are reading a power spectrum object that was written in the pre-Nbltpairs days
-            # then make sure to correctly set Ntimes and Ntpairs.
-            self.Ntpairs = len(
-                set([(t1, t2) for t1, t2 in zip(self.time_1_array, self.time_2_array)])
-            )
-            self.Ntimes = self.Ntpairs
-
         # Clear deprecated attributes.
         for dattr in self._meta_deprecated:
             if hasattr(self, dattr):
-- 
2.43.0


From 597325f66221621e9770325c89171c82f57ab4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:44 +0000
Subject: [PATCH 128/137] fix: a single channel width in an old file is read as
 an array

---
 src/hera_pspec/uvpspec.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 81a2c1b..c8859ca 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1905,16 +1905,8 @@ class UVPSpec:
 
         # If we are reading an UVPSpec object created before
         # UVData switched to future_array_shapes
-        try:
-            cw = getattr(self, "_channel_width").value
-        except AttributeError:
-            pass
-        else:
-            setattr(
-                self,
-                "_channel_width",
-                np.atleast_1d(getattr(self, "_channel_width").value),
-            )
+        if hasattr(self, "channel_width"):
+            self.channel_width = np.atleast_1d(self.channel_width)
 
         self.check(just_meta=just_meta)
 
-- 
2.43.0


From c10b9a2a6bf22a55d8910f2777606db851741098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:19 +0000
Subject: [PATCH 129/137] fix: cov_q_hat computes the documented 'autos' model,
 and takes numpy time indices

---
 src/hera_pspec/pspecdata.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index 0a7c2e3..c23e135 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1476,7 +1476,13 @@ class PSpecData:
             (len(time_indices), self.spw_Ndlys, self.spw_Ndlys), dtype=complex
         )
         for k1, k2 in zip(key1, key2):
-            if model == "dsets":
+            if model == "empirical":
+                cm = self.get_unnormed_V(
+                    k1, k2, model=model, exact_norm=exact_norm, pol=pol
+                )
+                output += 1.0 / np.asarray([cm for m in range(len(time_indices))])
+
+            else:
                 output += 1.0 / np.asarray(
                     [
                         self.get_unnormed_V(
@@ -1485,18 +1491,12 @@ class PSpecData:
                             model=model,
                             exact_norm=exact_norm,
                             pol=pol,
-                            time_index=t,
+                            time_index=int(t),
                         )
                         for t in time_indices
                     ]
                 )
 
-            elif model == "empirical":
-                cm = self.get_unnormed_V(
-                    k1, k2, model=model, exact_norm=exact_norm, pol=pol
-                )
-                output += 1.0 / np.asarray([cm for m in range(len(time_indices))])
-
         return float(len(key1)) / output
 
     def q_hat(self, key1, key2, allow_fft=False, exact_norm=False, pol=False):
-- 
2.43.0


From 47f76f14bc7dda3b1c4487a1d4d60ec77fc957c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:37 +0000
Subject: [PATCH 130/137] fix: subtract_uvp combines covariances also for
 spectra without statistics

---
 src/hera_pspec/uvpspec_utils.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index fa62cec..08953ec 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -126,22 +126,20 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
                             stat1.real**2 + stat2.real**2
                         ) + 1j * np.sqrt(stat1.imag**2 + stat2.imag**2)
 
-                    # add cov in quadrature: real and imag separately
-                    if hasattr(uvp1, "cov_array_real") and hasattr(
-                        uvp2, "cov_array_real"
-                    ):
-                        if uvp1.cov_model == uvp2.cov_model:
-                            cov1r = uvp1.cov_array_real[i][blp1_inds, :, :, j]
-                            cov2r = uvp2.cov_array_real[i2][blp2_inds, :, :, j2]
-                            uvp1.cov_array_real[i][blp1_inds, :, :, j] = np.sqrt(
-                                cov1r**2 + cov2r**2
-                            )
-
-                            cov1i = uvp1.cov_array_imag[i][blp1_inds, :, :, j]
-                            cov2i = uvp2.cov_array_imag[i2][blp2_inds, :, :, j2]
-                            uvp1.cov_array_imag[i][blp1_inds, :, :, j] = np.sqrt(
-                                cov1i**2 + cov2i**2
-                            )
+                # add cov in quadrature: real and imag separately
+                if hasattr(uvp1, "cov_array_real") and hasattr(uvp2, "cov_array_real"):
+                    if uvp1.cov_model == uvp2.cov_model:
+                        cov1r = uvp1.cov_array_real[i][blp1_inds, :, :, j]
+                        cov2r = uvp2.cov_array_real[i2][blp2_inds, :, :, j2]
+                        uvp1.cov_array_real[i][blp1_inds, :, :, j] = np.sqrt(
+                            cov1r**2 + cov2r**2
+                        )
+
+                        cov1i = uvp1.cov_array_imag[i][blp1_inds, :, :, j]
+                        cov2i = uvp2.cov_array_imag[i2][blp2_inds, :, :, j2]
+                        uvp1.cov_array_imag[i][blp1_inds, :, :, j] = np.sqrt(
+                            cov1i**2 + cov2i**2
+                        )
 
                 # same for window function
                 if hasattr(uvp1, "window_function_array") and hasattr(
-- 
2.43.0


From b0be6bcdce58e255b775109508187dd71a0e429a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:06 +0000
Subject: [PATCH 131/137] fix: UVPSpec equality compares small values on their
 own scale

---
 src/hera_pspec/uvpspec.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index c8859ca..4173578 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -2515,7 +2515,12 @@ class UVPSpec:
             if a.shape != b.shape:
                 return False
             if a.dtype.kind in "fc" or b.dtype.kind in "fc":
-                return np.isclose(a, b, rtol=1e-16 if jd else 1e-5).all()
+                if jd:
+                    return np.isclose(a, b, rtol=1e-16).all()
+                # delays in seconds, or spectra in some units, are far smaller
+                # than the default absolute tolerance
+                size = np.abs(b[np.isfinite(b)]).max(initial=0.0)
+                return np.isclose(a, b, atol=1e-8 * min(1.0, size)).all()
             # integers (e.g. baseline-pairs) and strings must match exactly
             return np.all(a == b)
 
-- 
2.43.0


From fb58b59b5006df29e47de80e9fed53f50298c52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:27 +0000
Subject: [PATCH 132/137] fix: selecting spectral windows updates the number of
 frequencies

---
 src/hera_pspec/uvpspec_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index 08953ec..de13932 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -619,6 +619,7 @@ def _select(
         uvp.spw_array = uvp.spw_array[spw_select]
         uvp.freq_array = uvp.freq_array[spw_freq_select]
         uvp.dly_array = uvp.dly_array[spw_dly_select]
+        uvp.Nfreqs = len(np.unique(uvp.freq_array))
         uvp.Ndlys = len(np.unique(uvp.dly_array))
         uvp.Nspws = len(np.unique(uvp.spw_array))
         uvp.Nspwdlys = len(uvp.spw_dly_array)
-- 
2.43.0


From ac69e1749e7c4329586342149b55639030a49e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:27 +0000
Subject: [PATCH 133/137] fix: combine_uvpspec and subtract_uvp take
 covariances without a model name

---
 src/hera_pspec/uvpspec.py       | 7 +++++--
 src/hera_pspec/uvpspec_utils.py | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 4173578..10960f7 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3112,12 +3112,15 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
             u.exact_windows = exact_windows
     if store_cov:
         # ensure cov model is the same for all uvps
-        if len(set([uvp.cov_model for uvp in uvps])) > 1:
+        # (approximate covariances come without a model name)
+        cov_models = set(getattr(uvp, "cov_model", None) for uvp in uvps)
+        if len(cov_models) > 1:
             store_cov = False
         else:
             u.cov_array_real = {}
             u.cov_array_imag = {}
-            u.cov_model = uvps[0].cov_model
+            if None not in cov_models:
+                u.cov_model = uvps[0].cov_model
     if store_stats:
         # get shared stats keys
         stored_stats = [set(uvp.stats_array.keys()) for uvp in uvps]
diff --git a/src/hera_pspec/uvpspec_utils.py b/src/hera_pspec/uvpspec_utils.py
index de13932..d1b5ceb 100644
--- a/src/hera_pspec/uvpspec_utils.py
+++ b/src/hera_pspec/uvpspec_utils.py
@@ -128,7 +128,8 @@ def subtract_uvp(uvp1, uvp2, run_check=True, verbose=False):
 
                 # add cov in quadrature: real and imag separately
                 if hasattr(uvp1, "cov_array_real") and hasattr(uvp2, "cov_array_real"):
-                    if uvp1.cov_model == uvp2.cov_model:
+                    model1 = getattr(uvp1, "cov_model", None)
+                    if model1 == getattr(uvp2, "cov_model", None):
                         cov1r = uvp1.cov_array_real[i][blp1_inds, :, :, j]
                         cov2r = uvp2.cov_array_real[i2][blp2_inds, :, :, j2]
                         uvp1.cov_array_real[i][blp1_inds, :, :, j] = np.sqrt(
-- 
2.43.0


From 8b0bb8ca226370c99c11aa2adcd7be51087a0417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:16 +0000
Subject: [PATCH 134/137] fix: combine_uvpspec takes spherically averaged exact
 window functions

---
 src/hera_pspec/uvpspec.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 10960f7..08f5bc2 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -3151,12 +3151,14 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
         # so needs to keep this shape)
         u.nsample_array[i] = np.empty((Nbltpairs, Npols), np.float64)
         if store_window:
+            # cylindrical, or spherically averaged
+            wf_shape = uvps[l].window_function_array[m].shape[1:-1]
+            u.window_function_array[i] = np.empty(
+                (Nbltpairs,) + wf_shape + (Npols,), np.float64
+            )
             if exact_windows:
                 Nkperp = uvps[l].window_function_kperp[m][:, 0].size
                 Nkpara = uvps[l].window_function_kpara[m][:, 0].size
-                u.window_function_array[i] = np.empty(
-                    (Nbltpairs, Ndlys, Nkperp, Nkpara, Npols), np.float64
-                )
                 u.window_function_kperp[i] = np.empty((Nkperp, Npols), np.float64)
                 u.window_function_kpara[i] = np.empty((Nkpara, Npols), np.float64)
                 for k, p in enumerate(new_polpairs):
@@ -3171,11 +3173,6 @@ def combine_uvpspec(uvps, merge_history=True, verbose=True):
                     u.window_function_kpara[i][:, k] = uvps[l].window_function_kpara[m][
                         :, q
                     ]
-            else:
-                Nkpar = uvps[l].window_function_array[m].shape[2]
-                u.window_function_array[i] = np.empty(
-                    (Nbltpairs, Ndlys, Nkpar, Npols), np.float64
-                )
         if store_cov:
             u.cov_array_real[i] = np.empty(
                 (Nbltpairs, Ndlys, Ndlys, Npols), np.float64
-- 
2.43.0


From 5cb56e5738ce33b097ac834c4de5a30b6d835394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:46:50 +0000
Subject: [PATCH 135/137] fix: noise simulations follow descending frequency
 channels

noise_sim applied the Kelvin to Jansky factors in ascending order of
frequency, and sky_noise_jy_autos took a negative channel width by default.
---
 src/hera_pspec/testing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hera_pspec/testing.py b/src/hera_pspec/testing.py
index fe7bd8d..804c343 100644
--- a/src/hera_pspec/testing.py
+++ b/src/hera_pspec/testing.py
@@ -445,9 +445,9 @@ def noise_sim(
 
     # Get Vrms in Jy using beam
     if beam is not None:
-        freqs = np.unique(data.freq_array)[None, :, None]
+        # keep the channel order of the data, which may descend
         K_to_Jy = [
-            1e3 / (beam.Jy_to_mK(freqs.squeeze(), pol=p))
+            1e3 / (beam.Jy_to_mK(data.freq_array, pol=p))
             for p in data.polarization_array
         ]
         K_to_Jy = np.array(K_to_Jy).T[None, :, :]
@@ -559,7 +559,7 @@ def sky_noise_jy_autos(
     assert omega_p.size == freqs.size, "`omega_p` must have the same length as `freqs`"
 
     if channel_width is None:
-        channel_width = np.mean(np.diff(freqs))
+        channel_width = np.abs(np.mean(np.diff(freqs)))
 
     # Calculate Jansky to Kelvin conversion factor
     # The factor of 1e-26 converts from Jy to W/m^2/Hz.
-- 
2.43.0


From 5d13249fe9bb36df98882c689acbd2567977ff52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:44 +0000
Subject: [PATCH 136/137] fix: data whose channels run from high to low
 frequency

The beam scalar integrated below the band and came out negative, exact
normalization had the wrong sign, the upper edge of spectral windows lay
below the lower one, folding kept the half with negative delays, and noise
errors and exact windows were looked up outside the band.
---
 src/hera_pspec/grouping.py  | 5 +++++
 src/hera_pspec/pspecbeam.py | 1 +
 src/hera_pspec/pspecdata.py | 8 ++++----
 src/hera_pspec/utils.py     | 6 ++++--
 src/hera_pspec/uvpspec.py   | 2 +-
 src/hera_pspec/uvwindow.py  | 2 +-
 6 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/hera_pspec/grouping.py b/src/hera_pspec/grouping.py
index 0aa8ae4..a6a7ec8 100644
--- a/src/hera_pspec/grouping.py
+++ b/src/hera_pspec/grouping.py
@@ -1469,6 +1469,11 @@ def fold_spectra(uvp):
     for spw in range(uvp.Nspws):
         # get number of dly bins
         Ndlys = uvp.data_array[spw].shape[1]
+        # the half that is kept holds the positive delays, also if the delays of
+        # the unfolded spectra run from high to low
+        spw_dlys = uvp.spw_dly_array == spw
+        if uvp.dly_array[spw_dlys][0] > 0:
+            uvp.dly_array[spw_dlys] *= -1
         # This section could be streamlined considerably since there is a lot of
         # code overlap between the even and odd Ndlys cases.
 
diff --git a/src/hera_pspec/pspecbeam.py b/src/hera_pspec/pspecbeam.py
index 4802edc..a059f73 100644
--- a/src/hera_pspec/pspecbeam.py
+++ b/src/hera_pspec/pspecbeam.py
@@ -75,6 +75,7 @@ def _compute_pspec_scalar(
         Units: h^-3 Mpc^3 or Mpc^3.
     """
     # Get integration freqs
+    pspec_freqs = np.sort(pspec_freqs)  # channels may run from high to low
     df = np.median(np.diff(pspec_freqs))
     integration_freqs = np.linspace(
         pspec_freqs.min(),
diff --git a/src/hera_pspec/pspecdata.py b/src/hera_pspec/pspecdata.py
index c23e135..b688185 100644
--- a/src/hera_pspec/pspecdata.py
+++ b/src/hera_pspec/pspecdata.py
@@ -1592,7 +1592,7 @@ class PSpecData:
         elif exact_norm and not (allow_fft):
             q = []
             del_tau = (
-                np.median(np.diff(self.delays())) * 1e-9
+                np.abs(np.median(np.diff(self.delays()))) * 1e-9
             )  # Get del_eta in Eq.11(a) (HERA memo #44) (seconds)
             integral_beam = self.get_integral_beam(
                 pol
@@ -1674,7 +1674,7 @@ class PSpecData:
         iR1Q1, iR2Q2 = {}, {}
         if exact_norm:
             integral_beam = self.get_integral_beam(pol)
-            del_tau = np.median(np.diff(self.delays())) * 1e-9
+            del_tau = np.abs(np.median(np.diff(self.delays()))) * 1e-9
         if exact_norm:
             qnorm = del_tau * integral_beam
         else:
@@ -1782,7 +1782,7 @@ class PSpecData:
         iR1Q1, iR2Q2 = {}, {}
         if exact_norm:
             integral_beam = self.get_integral_beam(pol)
-            del_tau = np.median(np.diff(self.delays())) * 1e-9
+            del_tau = np.abs(np.median(np.diff(self.delays()))) * 1e-9
         if exact_norm:
             qnorm = del_tau * integral_beam
         else:
@@ -1867,7 +1867,7 @@ class PSpecData:
         R2 = self.R(key2)
         if exact_norm:
             integral_beam = self.get_integral_beam(pol)
-            del_tau = np.median(np.diff(self.delays())) * 1e-9
+            del_tau = np.abs(np.median(np.diff(self.delays()))) * 1e-9
         for dly_idx in range(self.spw_Ndlys):
             if exact_norm:
                 QR2 = np.dot(del_tau * integral_beam * self.get_Q_alt(dly_idx), R2)
diff --git a/src/hera_pspec/utils.py b/src/hera_pspec/utils.py
index cdcf1d3..e806e04 100644
--- a/src/hera_pspec/utils.py
+++ b/src/hera_pspec/utils.py
@@ -1605,8 +1605,10 @@ def uvp_noise_error(
         # get spw properties
         if precomp_P_N is None:
             spw_range = uvp.get_spw_ranges(spw)[0]
-            spw_start = np.argmin(
-                np.abs(np.squeeze(auto_Tsys.freq_array) - spw_range[0])
+            spw_freqs = uvp.freq_array[uvp.spw_to_freq_indices(spw)]
+            spw_start = min(
+                np.argmin(np.abs(np.squeeze(auto_Tsys.freq_array) - freq))
+                for freq in (spw_freqs[0], spw_freqs[-1])
             )
             spw_stop = spw_start + spw_range[2]
             taper = uvt.dspec.gen_window(uvp.taper, spw_range[2])
diff --git a/src/hera_pspec/uvpspec.py b/src/hera_pspec/uvpspec.py
index 08f5bc2..d735447 100644
--- a/src/hera_pspec/uvpspec.py
+++ b/src/hera_pspec/uvpspec.py
@@ -1060,7 +1060,7 @@ class UVPSpec:
         for spw in spws:
             spw_freqs = self.freq_array[self.spw_to_freq_indices(spw)]
             Nfreqs = len(spw_freqs)
-            spw_df = np.median(np.diff(spw_freqs))
+            spw_df = np.abs(np.median(np.diff(spw_freqs)))
             Ndlys = len(self.spw_to_dly_indices(spw))
             spw_ranges.append(
                 (spw_freqs.min(), spw_freqs.min() + Nfreqs * spw_df, Nfreqs, Ndlys)
diff --git a/src/hera_pspec/uvwindow.py b/src/hera_pspec/uvwindow.py
index 9ba1562..54c7f73 100644
--- a/src/hera_pspec/uvwindow.py
+++ b/src/hera_pspec/uvwindow.py
@@ -435,7 +435,7 @@ class UVWindow:
         # spectral window
         if spw >= uvp.Nspws:
             raise ValueError("Input spw must be smaller or equal to uvp.Nspws")
-        freq_array = uvp.freq_array[uvp.spw_to_freq_indices(spw)]
+        freq_array = np.sort(uvp.freq_array[uvp.spw_to_freq_indices(spw)])
 
         # polarisation pair
         polpair = uvputils.polpair_int2tuple(uvp.polpair_array[ipol], pol_strings=True)
-- 
2.43.0


From 61e6c9aaefbb7368929657c6382e064da132363a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:37 +0000
Subject: [PATCH 137/137] fix: waterfalls of baseline-pairs with different
 integrations show their own LSTs

---
 src/hera_pspec/plot.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/hera_pspec/plot.py b/src/hera_pspec/plot.py
index b3346ae..ab4c171 100644
--- a/src/hera_pspec/plot.py
+++ b/src/hera_pspec/plot.py
@@ -776,17 +776,19 @@ def delay_waterfall(
     assert axes.ndim == 2, "input axes must have ndim == 2"
     Nvert, Nhorz = axes.shape
 
-    # Get LST range: setting y-ticks is tricky due to LST wrapping...
-    y = uvp_plt.lst_avg_array[uvp_plt.key_to_indices(list(waterfall.keys())[0])[1]]
-    y = np.unwrap(y)
-    if y[0] > np.pi:
-        # if start is closer to 2pi than 0, lower axis by an octave
-        y -= 2 * np.pi
-    if lst_in_hrs:
-        lst_units = "Hr"
-        y *= 24 / (2 * np.pi)
-    else:
-        lst_units = "rad"
+    # Get LST range of each baseline-pair (they may have different integrations):
+    # setting y-ticks is tricky due to LST wrapping...
+    lst_axes = {}
+    for key in waterfall:
+        y = uvp_plt.lst_avg_array[uvp_plt.key_to_indices(key)[1]]
+        y = np.unwrap(y)
+        if y[0] > np.pi:
+            # if start is closer to 2pi than 0, lower axis by an octave
+            y -= 2 * np.pi
+        if lst_in_hrs:
+            y *= 24 / (2 * np.pi)
+        lst_axes[key] = y
+    lst_units = "Hr" if lst_in_hrs else "rad"
 
     # get baseline vectors
     blvecs = dict(
@@ -837,7 +839,7 @@ def delay_waterfall(
                 aspect="auto",
                 vmin=vmin,
                 vmax=vmax,
-                extent=[x[0], x[-1], y[-1], y[0]],
+                extent=[x[0], x[-1], lst_axes[key][-1], lst_axes[key][0]],
                 **kwargs,
             )
 
-- 
2.43.0

