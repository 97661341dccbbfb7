From a032bf61e11219c8e51ba5573cf55607ac7d2a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 01/55] fix: strip only the "const__" prefix from the names of
 constant results

str.lstrip("const__") removes any leading characters out of "const_", so
e.g. "const__static" was stored as "atic".
---
 rt1/_rtprocess_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index bcd5109..7a98e33 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -263,7 +263,7 @@ class RT1_processor(object):
 
                     for cfg, cfg_results in val.items():
                         if cfg.startswith("const__"):
-                            results[cfg.lstrip("const__")].append(cfg_results)
+                            results[cfg[len("const__"):]].append(cfg_results)
                         elif isinstance(cfg_results, dict):
                             for cfg_key, cfg_val in cfg_results.items():
                                 results[cfg + "/" + cfg_key].append(cfg_val)
-- 
2.43.0


From d28b46e1fce8312ba276343bb8f0d6be7cf6c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 02/55] fix: release waiting workers if the run is aborted

If a writer failed (or the run was interrupted while the workers were paused),
"should_wait" remained cleared and all workers (and the pool) blocked forever.
---
 rt1/_rtprocess_writer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 7a98e33..ae7b28a 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -387,6 +387,8 @@ class RT1_processor(object):
                     break
 
             if self._stop.is_set():
+                # make sure no worker keeps waiting for an aborted run
+                self.should_wait.set()
                 log.progress("shutting down " + mp.current_process().name)
                 break
 
@@ -451,12 +453,15 @@ class RT1_processor(object):
             except Exception:
                 log.error("problem while writing data... exiting", exc_info=True)
                 self._stop.set()
-                self.should_wait.clear()
                 self.write_lock.release()
 
     def _worker_process(self, *args):
         self.should_wait.wait()
 
+        # don't start any further inputs if the run has been aborted
+        if self._stop.is_set():
+            return
+
         try:
             if self.reader_func is not None:
                 # use provided reader-func...
-- 
2.43.0


From 6558cd5094d2879587a889073b0b69b410284c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 03/55] fix: a malformed result must not discard the results of
 other inputs

A result that is not a dict raised inside the combiner-loop, and all results
already collected for the current chunk were lost.
---
 rt1/_rtprocess_writer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index ae7b28a..a50d2fb 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -261,6 +261,14 @@ class RT1_processor(object):
                     except QueueEmpty:
                         break
 
+                    if not isinstance(val, dict):
+                        log.error(
+                            "ignored a result that is not a dict: "
+                            + f"{type(val).__name__}"
+                        )
+                        self._increase_cnt(err=True)
+                        continue
+
                     for cfg, cfg_results in val.items():
                         if cfg.startswith("const__"):
                             results[cfg[len("const__"):]].append(cfg_results)
-- 
2.43.0


From 00f4a7e6c0b99538b83c1a61859a288402c5ebdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 04/55] fix: resume a run whose database exists but is still
 empty

If the first write failed, the HDF-file exists without any IDs and any further
attempt to process (or mask) IDs raised an AttributeError.
---
 rt1/_rtprocess_writer.py | 8 ++++++--
 rt1/processing_config.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index a50d2fb..8003829 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -341,8 +341,12 @@ class RT1_processor(object):
                 # get a list of integers that have already been assigned to IDs
                 # found_ID_nums = store.select_column("reader_arg", "index").values
 
-                found_ID_nums = fit_db.IDs.index
-                found_IDs = fit_db.IDs.ID.values
+                if fit_db.IDs is not None:
+                    found_ID_nums = fit_db.IDs.index
+                    found_IDs = fit_db.IDs.ID.values
+                else:
+                    # the HDF store exists but nothing has been written yet
+                    found_ID_nums, found_IDs = [], []
 
                 # a list of bool's that indicate if the ID is already processed
                 process_Q = pd.Index(map(get_ID, self.arg_list)).isin(found_IDs)
diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index 91ff7d8..475711d 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -313,8 +313,12 @@ class rt1_processing_config(object):
                 # get a list of integers that have already been assigned to IDs
                 # found_ID_nums = store.select_column("reader_arg", "index").values
 
-                found_ID_nums = fit_db.IDs.index
-                found_IDs = fit_db.IDs.ID.values
+                if fit_db.IDs is not None:
+                    found_ID_nums = fit_db.IDs.index
+                    found_IDs = fit_db.IDs.ID.values
+                else:
+                    # the HDF store exists but nothing has been written yet
+                    found_ID_nums, found_IDs = [], []
 
                 # a list of bool's that indicate if the ID is already processed
                 process_Q = pd.Index(map(get_ID, arg_list)).isin(found_IDs)
-- 
2.43.0


From 071accaf7c8ef8ed702bd7b9fa6a5185522f7381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 05/55] fix: find_missing() starts at 0 also if the list is
 empty

---
 rt1/general_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index d8fd94a..20f0504 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -384,7 +384,7 @@ def find_missing(lst=[], N=None):
     """
     start = 0
     # get the max. ID defined in "lst"
-    maxID = max(lst) if len(lst) > 0 else 0
+    maxID = max(lst) if len(lst) > 0 else start - 1
 
     if len(lst) > 0:
         # check for IDs that can be used to "fill-up" the provided list
-- 
2.43.0


From 02aecad9feb158bd4abb336e30a5f16c6de5ce73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 06/55] fix: meandatetime() fails for lists of datetime-objects
 and DatetimeIndexes

---
 rt1/general_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index 20f0504..5069c2a 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -112,9 +112,9 @@ def meandatetime(datetimes):
     if len(datetimes) == 1:
         return datetimes[0]
 
-    x = datetimes
+    x = np.asarray(datetimes)
     deltas = (x[0] - x[1:]) / len(x)
-    meandelta = sum(deltas)
+    meandelta = np.sum(deltas)
     meandate = x[0] - meandelta
     return meandate
 
-- 
2.43.0


From ef4a30d18788a22c3a99b70272537deb2557ed06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 07/55] fix: interpolate_to_index() fails for lists and arrays

---
 rt1/general_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index 5069c2a..82373ca 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -346,7 +346,7 @@ def interpolate_to_index(data, index, data_index=None, **interp1d_kwargs):
             'you must provide "data_index"' + "if data is provided as list or array"
         )
 
-        f = interp1d(data_index.to_julian_date(), data.values, **kwargs)
+        f = interp1d(data_index.to_julian_date(), np.asarray(data), **kwargs)
         x = f(index.to_julian_date())
         return Series(x, index)
 
-- 
2.43.0


From 897aec72aa04dacb38715e569d04c347ebb7fd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 08/55] fix: the dict-representation of a defdict-variable
 could not be evaluated

---
 rt1/_containers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rt1/_containers.py b/rt1/_containers.py
index 58d0c37..213c83d 100644
--- a/rt1/_containers.py
+++ b/rt1/_containers.py
@@ -386,10 +386,10 @@ class _RT1_variable:
         """
 
         return dict(
-            fitQ=self.fitQ.value,
-            val=self.val.value,
-            freq=self.freq.value,
-            minval=self.minval.value,
-            maxval=self.maxval.value,
-            interpQ=self.interpQ.value,
+            fitQ=self.fitQ,
+            val=self.val,
+            freq=self.freq,
+            minval=self.minval,
+            maxval=self.maxval,
+            interpQ=self.interpQ,
         )
-- 
2.43.0


From 67c74cdcb0d62918af8d5ae03e2775ffb9fdcf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:17 +0000
Subject: [PATCH 09/55] fix: (re)definition of defdict-variables via
 attribute-assignment of lists

---
 rt1/_containers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rt1/_containers.py b/rt1/_containers.py
index 213c83d..c124f61 100644
--- a/rt1/_containers.py
+++ b/rt1/_containers.py
@@ -24,11 +24,15 @@ class _RT1_defdict:
         return getattr(self.var, key)
 
     def __setattr__(self, key, val):
-        if not key.startswith("_") and key not in self._variables:
+        if not key.startswith("_"):
             # set the value of the corresponding property on item assignment
             if isinstance(val, dict):
                 self.add_variable(key, **val)
             elif isinstance(val, list):
+                if len(val) > 3 and isinstance(val[3], (list, tuple)):
+                    # a list of the form [fitQ, val, freq, ([minval], [maxval]), interpQ]
+                    ([minval], [maxval]) = val[3]
+                    val = [*val[:3], minval, maxval, *val[4:]]
                 self.add_variable(key, *val)
             else:
                 raise AttributeError(
-- 
2.43.0


From 51046c62802c57a287452895f43b9456afa941f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:58 +0000
Subject: [PATCH 10/55] fix: iterate over all IDs exactly once if nids is no
 multiple of the chunksize

---
 rt1/rtresults.py | 115 +++++++++++++++--------------------------------
 1 file changed, 36 insertions(+), 79 deletions(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 91defbe..4c24c8e 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -686,28 +686,6 @@ class HDFaccessor(object):
         for i in range(0, len(lst), n):
             yield lst[i : i + n]
 
-    def _get_vals(self, key, chunksize, start=None, **kwargs):
-        # TODO
-        idxlevels = self.store.get_storer(key).levels
-        if idxlevels == 1:
-            idxname = "index"
-        else:
-            idxname = idxlevels[0]
-
-        assert self.IDs is not None, "no IDs found in HDF-store"
-        if start:
-            assert start < len(self.IDs), (
-                f"start={start} is bigger than the number"
-                + f" of IDs ({len(self.IDs)})"
-            )
-        use_ids = self._chunks(self.IDs.index[slice(start, None)], chunksize)
-        for i, ids in enumerate(use_ids):
-            indexes = self.store.select_as_coordinates(
-                key=key, where=f"{idxname} in ids"
-            )
-            data = self.store.get_storer(key).read(where=indexes, **kwargs)
-            yield data
-
     def _get_vals_with_IDs(self, key, use_ids, chunksize=1, **kwargs):
         # TODO
         idxlevels = self.store.get_storer(key).levels
@@ -824,72 +802,51 @@ class HDFaccessor(object):
             the retrieved DataFrame.
 
         """
-        nids = min(len(self.IDs), nids)
-
         assert (
             key in self.store
         ), f"invalid key provided, use one of {self.store.keys()}"
-
-        if read_chunksize is None:
-            s = self.store.get_storer(key)
-
-            if isinstance(nids, int):
-                if s.is_multi_index:
-                    read_chunksize = min(10, nids)
-                else:
-                    read_chunksize = nids
-            elif isinstance(nids, str):
-                read_chunksize = 1
-            else:
-                read_chunksize = len(nids)
+        assert self.IDs is not None, "no IDs found in HDF-store"
 
         if isinstance(nids, int):
-            data_gen = self._get_vals(
-                key=key, chunksize=read_chunksize, start=start, **kwargs
-            )
-        elif isinstance(nids, str):
-            nids = 1
-            data_gen = self._get_vals_with_IDs(
-                key=key, chunksize=read_chunksize, use_ids=[nids], **kwargs
-            )
+            if start:
+                assert start < len(self.IDs), (
+                    f"start={start} is bigger than the number"
+                    + f" of IDs ({len(self.IDs)})"
+                )
+            nids = min(len(self.IDs), nids)
+            use_ids = self.IDs.index[slice(start, None)]
         else:
-            use_ids = nids
+            use_ids = [nids] if isinstance(nids, str) else list(nids)
+            use_ids = [self._ID_to_IDnum(i) if isinstance(i, str) else i for i in use_ids]
             nids = len(use_ids)
-            data_gen = self._get_vals_with_IDs(
-                key=key, chunksize=read_chunksize, use_ids=use_ids, **kwargs
-            )
 
-        ret = []
-        for i, d in enumerate(data_gen):
-            ret.append(d)
-
-            if (i + 1) % (nids // read_chunksize) == 0:
-                if nids % read_chunksize != 0:
-                    data = next(data_gen)
-                    ret.append(iloc_level(data, slice(nids % 10)))
-
-                data = pd.concat(ret)
-                if self.set_ID is True:
-                    if isinstance(data.index, pd.MultiIndex):
-                        data.index = data.index.set_levels(
-                            self.IDs.loc[data.index.levels[0]].ID, level=0
-                        )
-                    else:
-                        data["ID"] = self.IDs.loc[data.index]
-                        data = data.set_index("ID")
-                yield data
-
-                if nids % read_chunksize != 0:
-                    ret = [iloc_level(data, slice(nids % 10, None))]
+        if read_chunksize is None:
+            if self.store.get_storer(key).is_multi_index:
+                read_chunksize = min(10, nids)
+            else:
+                read_chunksize = nids
+
+        nread = 0
+        for ids in self._chunks(use_ids, nids):
+            ret = []
+            for d in self._get_vals_with_IDs(
+                key=key, use_ids=ids, chunksize=read_chunksize, **kwargs
+            ):
+                ret.append(d)
+                if print_progress:
+                    nread += min(read_chunksize, len(ids))
+                    print("reading", nread)
+
+            data = pd.concat(ret)
+            if self.set_ID is True:
+                if isinstance(data.index, pd.MultiIndex):
+                    data.index = data.index.set_levels(
+                        self.IDs.loc[data.index.levels[0]].ID, level=0
+                    )
                 else:
-                    ret = []
-
-            if print_progress:
-                print("reading", (i + 1) * read_chunksize)
-
-        if len(ret) > 0:
-            # make sure to return the last results (maybe less than the read-chunksize)
-            yield pd.concat(ret)
+                    data["ID"] = self.IDs.loc[data.index]
+                    data = data.set_index("ID")
+            yield data
 
 
 class _data_container(object):
-- 
2.43.0


From 469cf64b3ed1063ceee60b4925e040a336a9f190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:51 +0000
Subject: [PATCH 11/55] fix: numeric, negative and text labels of manual
 parameter-variabilities are kept apart

---
 rt1/rtfits.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 909207a..cf95cc3 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -664,21 +664,18 @@ class Fits(Scatter):
 
             manual_dyn_df = self._manual_dyn_df
             if manual_dyn_df is not None:
-                for key, val in manual_dyn_df.astype(str).items():
-                    dd1 = np.char.zfill(
-                        np.array(param_dyn_dict[key], dtype="str"),
-                        len(
-                            max(
-                                np.array(param_dyn_dict[key], dtype="str"),
-                                key=len,
-                            )
-                        ),
-                    )
-                    dd2 = val.str.zfill(len(max(val, key=len)))
+                for key, val in manual_dyn_df.items():
+                    # number the manually provided labels (in ascending order
+                    # so that monotonic assignments remain monotonic)
+                    try:
+                        labels = pd.factorize(val, sort=True)[0] + 1
+                    except TypeError:
+                        labels = pd.factorize(val)[0] + 1
                     # generate a combined (unique) integer
-                    param_dyn_dict[key] = np.array(
-                        np.char.add(dd1, dd2), dtype=float
-                    ).astype(int)
+                    param_dyn_dict[key] = (
+                        np.array(param_dyn_dict[key], dtype=int) * (max(labels) + 1)
+                        + labels
+                    )
             return param_dyn_dict
 
     @property
-- 
2.43.0


From 768a24f40c341a563fea20777edb91c31ed6ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:04 +0000
Subject: [PATCH 12/55] fix: variability-groups of more observations than
 available use a single group

---
 rt1/rtfits.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index cf95cc3..6a17f06 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -624,8 +624,9 @@ class Fits(Scatter):
                         # find the number of groups required to split the
                         # dataset into measurement-bins of length "f"
                         n_dat = self.dataset.index.nunique()
-                        ngrps = n_dat // f
-                        rest = n_dat % f
+                        # (use a single group if there are less than "f")
+                        ngrps = max(n_dat // f, 1)
+                        rest = max(n_dat - ngrps * f, 0)
                         res = [0 for i in range(ngrps)]
                         # distribute the rest as equal as possible
                         # (to the first groups)
-- 
2.43.0


From cc75bec0f0d84b6dc4a9a1795a93ee71e253f6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 13/55] fix: evaluate the inner derivatives of the jacobian
 with the values of each observation

---
 rt1/rtfits.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 6a17f06..93e9042 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1831,12 +1831,15 @@ class Fits(Scatter):
         if order is None:
             order = self._order
 
+        # assign the values to the individual observations
+        # (also required to evaluate the inner derivatives!)
+        res_dict = self._assignvals(res_dict, interp_vals)
         R = self._set_calc_values(
             R=R,
             res_dict=res_dict,
             fixed_dict=fixed_dict,
             interp_vals=interp_vals,
-            assign=True,
+            assign=False,
         )
 
         # if tau, omega or NormBRDF have been provided in terms of symbols,
-- 
2.43.0


From 776d445c4835103cb19b5a0950d1e7ffe6dbef5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 14/55] fix: incorporate data_weights in the jacobian used to
 perform a fit

---
 rt1/rtfits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 93e9042..25dcbbe 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1861,6 +1861,8 @@ class Fits(Scatter):
         # (evaluating only "outer" derivatives with respect to omega,
         # tau and NormBRDF)
         jac = R.jacobian(sig0=self.sig0, dB=self.dB, param_list=neworder)
+        # incorporate data-weighting (similar to the residuals)
+        jac = [self.data_weights * jac_i for jac_i in jac]
         # self.jacshape = jac[0].shape
         # generate a scipy.sparse matrix that represents the jacobian for all
         # the individual parameters according to jac_dyn_dict
-- 
2.43.0


From cb1e9011165d4d368f0e8bbbc5045e3bf938d778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 15/55] fix: jacobian if a parameter appears in several
 definitions of the model

---
 rt1/rtfits.py | 115 ++++++++++++++++++--------------------------------
 1 file changed, 40 insertions(+), 75 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 25dcbbe..29111e7 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1843,26 +1843,46 @@ class Fits(Scatter):
         )
 
         # if tau, omega or NormBRDF have been provided in terms of symbols,
-        # remove the symbols that are intended to be fitted (that are also
-        # in param_dyn_dict) and replace them by 'omega', 'tau' and 'NormBRDF'
-        # so that calling R.jacobian will calculate the "outer" derivative
-        neworder = [o for o in order]
-        if len(self._tau_symb) != 0:
-            for i in set(self._tau_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "tau"
-        if len(self._omega_symb) != 0:
-            for i in set(self._omega_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "omega"
-        if len(self._N_symb) != 0:
-            for i in set(self._N_symb) & set(param_dyn_dict.keys()):
-                neworder[neworder.index(i)] = "NormBRDF"
-
-        # calculate the jacobian based on neworder
-        # (evaluating only "outer" derivatives with respect to omega,
-        # tau and NormBRDF)
-        jac = R.jacobian(sig0=self.sig0, dB=self.dB, param_list=neworder)
-        # incorporate data-weighting (similar to the residuals)
-        jac = [self.data_weights * jac_i for jac_i in jac]
+        # the "outer" derivatives with respect to 'omega', 'tau' and 'NormBRDF'
+        # must be multiplied by the "inner" derivatives of their definitions,
+        # i.e.:   df/dx = df/dtau * dtau/dx
+        # (the same symbol might be used in more than one definition and it
+        # might also be used as a parameter of V or SRF!)
+        definitions = {
+            "tau": (self._tau_symb, self._tau_diff_func),
+            "omega": (self._omega_symb, self._omega_diff_func),
+            "NormBRDF": (self._N_symb, self._N_diff_func),
+        }
+
+        terms = dict()
+        for key in order:
+            terms[key] = []
+            for outer, (symbs, diff_func) in definitions.items():
+                if key in symbs:
+                    inner = diff_func[key](**{i: res_dict[i] for i in symbs})
+                    terms[key].append((outer, inner))
+            if key == "bsf" or key in R.param_dict or len(terms[key]) == 0:
+                terms[key].append((key, 1.0))
+
+        # evaluate all required "outer" derivatives
+        outerlist = list(dict.fromkeys(i for val in terms.values() for i, _ in val))
+        outerdict = dict(
+            zip(
+                outerlist,
+                R.jacobian(sig0=self.sig0, dB=self.dB, param_list=outerlist),
+            )
+        )
+
+        # calculate the jacobian for each parameter
+        # (with respect to the weighted residuals used in the fit)
+        jac = [
+            np.broadcast_to(
+                self.data_weights
+                * sum(outerdict[outer] * inner for outer, inner in terms[key]),
+                self.inc.shape,
+            )
+            for key in order
+        ]
         # self.jacshape = jac[0].shape
         # generate a scipy.sparse matrix that represents the jacobian for all
         # the individual parameters according to jac_dyn_dict
@@ -1892,61 +1912,6 @@ class Fits(Scatter):
                 )
                 newjacdict[key] = m
 
-        # evaluate jacobians of the functional representations of tau
-        # and add them to newjacdict
-        for i in set(self._tau_symb) & set(param_dyn_dict.keys()):
-            # generate a function that evaluates the 'inner' derivative, i.e.:
-            # df/dx = df/dtau * dtau/dx = df/dtau * d_inner
-            # evaluate the inner derivative
-            df_dx = self._tau_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._tau_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                # flatten the array (except if it is a scalar)
-                # happens for example when   f = 5*x   ->   df/dx = 5
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                # calculate "outer" * "inner" derivative for sparse matrices
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
-        # same for omega
-        for i in set(self._omega_symb) & set(param_dyn_dict.keys()):
-            df_dx = self._omega_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._omega_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
-        # same for NormBRDF
-        for i in set(self._N_symb) & set(param_dyn_dict.keys()):
-            df_dx = self._N_diff_func[i](
-                **{
-                    key: res_dict[key] if key in res_dict else fixed_dict[key]
-                    for key in self._N_symb
-                }
-            )
-            if not np.isscalar(df_dx):
-                df_dx = np.fromiter(chain(*df_dx), dtype=float, count=jac_size)
-
-            if isspmatrix(newjacdict[str(i)]):
-                newjacdict[str(i)] = newjacdict[str(i)].multiply(df_dx)
-            else:
-                newjacdict[str(i)] = newjacdict[str(i)] * df_dx
-
         if hasattr(self, "intermediate_results"):
             self.intermediate_results["jacobian"] += [newjacdict]
 
-- 
2.43.0


From a995ec8e07a41c86def4faebdf153ddb3edd4d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 16/55] fix: calc_model(return_components=True) for intensities
 in linear units

---
 rt1/rtfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 29111e7..3a62447 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1773,7 +1773,7 @@ class Fits(Scatter):
 
         # calculate total backscatter-values
         if return_components is True:
-            model_calc = R.calc()
+            model_calc = np.array(np.broadcast_arrays(*R.calc()))
         else:
             model_calc = R.calc()[0]
 
-- 
2.43.0


From 9b8306ae9b0b224c3092a1eb50589396c3d856dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:38 +0000
Subject: [PATCH 17/55] fix: auxiliary start-values of groups with unequal
 sizes

---
 rt1/rtfits.py | 39 ++++++++++-----------------------------
 1 file changed, 10 insertions(+), 29 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 3a62447..56bc992 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1111,43 +1111,24 @@ class Fits(Scatter):
         for key, val in self.defdict.items():
             if val[0] is True:
                 # in case start-values have been provided via dataset,
-                # take the average-value for each fit-group
+                # take the average-value for each parameter-group
                 if val[1] == "auxiliary":
                     assert key + "_start" in self.dataset, (
                         f'you must provide a column {key + "_start"} in '
                         + 'the dataset if you want to use "auxiliary" start-vals'
                     )
-                    meanstartvals = list(
-                        groupby_unsorted(
-                            zip(self._groupindex, self.dataset[key + "_start"]),
+                    # evaluate the mean start-value for each parameter-group
+                    meanstartvals = [
+                        np.mean(vals)
+                        for vals in groupby_unsorted(
+                            zip(
+                                self.param_dyn_dict[key],
+                                self.dataset[key + "_start"],
+                            ),
                             key=itemgetter(0),
                             get=itemgetter(1),
                         ).values()
-                    )
-
-                    # evaluate the mean start-value for each group
-                    if val[2] == "index":
-                        # avoid grouping with _param_assigns since anyway
-                        # only a single value is given for each group
-                        meanstartvals = np.mean(meanstartvals, axis=1)
-                    else:
-                        # get a rectangularized list of indices for each
-                        # parameter (instead of using a loop which can be VERY
-                        # slow for a large number of parameters)
-                        st, sm = rectangularize(
-                            self._param_assigns[key].values(), return_mask=True
-                        )
-                        # average over each group in the dataset
-                        meanstartvals = np.ma.mean(
-                            rectangularize(meanstartvals, return_masked=True),
-                            axis=1,
-                        )
-                        # assign individual values to each parameter-group
-                        meanstartvals = np.ma.mean(
-                            np.ma.masked_array(np.take(meanstartvals, st), sm),
-                            axis=1,
-                        ).compressed()
-
+                    ]
                     startvaldict[key] = meanstartvals
                 else:
                     startvaldict[key] = val[1]
-- 
2.43.0


From fece5408d11bee6fe5b227f5697760f70b08d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 18/55] fix: legendre-expansion of LinCombV

---
 rt1/volume.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rt1/volume.py b/rt1/volume.py
index 4c6d13b..3d8653f 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -484,6 +484,7 @@ class LinCombV(Volume):
         super(LinCombV, self).__init__(**kwargs)
 
         self.Vchoices = Vchoices
+        self._set_legexpansion()
 
         name = "LinCombV"
         for c in Vchoices:
-- 
2.43.0


From eef57df148507ee8b64938cf43603835c810b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 19/55] fix: evaluate Henyey-Greenstein functions whose
 asymmetry is given as expression

---
 rt1/surface.py | 5 +++++
 rt1/volume.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/rt1/surface.py b/rt1/surface.py
index fda6d74..03834f4 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -859,6 +859,11 @@ class HG_nadirnorm(Surface):
 
         if isinstance(self.t, sp.Symbol):
             t = kwargs[str(self.t)]
+        elif isinstance(self.t, sp.Basic):
+            # use the sympy-function if t is given as an expression
+            return self._lambda_func(*kwargs)(
+                theta_0, theta_ex, phi_0, phi_ex, **kwargs
+            )
         else:
             t = self.t
 
diff --git a/rt1/volume.py b/rt1/volume.py
index 3d8653f..8adbb80 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -717,6 +717,11 @@ class HenyeyGreenstein(Volume):
         """direct numeric version of _func"""
         if isinstance(self.t, sp.Symbol):
             t = kwargs[str(self.t)]
+        elif isinstance(self.t, sp.Basic):
+            # use the sympy-function if t is given as an expression
+            return self._lambda_func(*kwargs)(
+                theta_0, theta_ex, phi_0, phi_ex, **kwargs
+            )
         else:
             t = self.t
         x = self._scat_angle_numeric(theta_0, theta_ex, phi_0, phi_ex, self.a)
-- 
2.43.0


From dfca627da7e81553d39f9a8463c021badcdb29d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 20/55] fix: derivative of the CosineLobe BRDF

---
 rt1/surface.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rt1/surface.py b/rt1/surface.py
index 03834f4..884a0cc 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -704,9 +704,10 @@ class CosineLobe(Surface):
 
         # alternative formulation avoiding the use of sp.Max()
         #     (this is done because   sp.lambdify('x',sp.Max(x), "numpy")
-        #      generates a function that can not interpret array inputs.)
+        #      generates a function that can not interpret array inputs
+        #      and sp.sign() has no derivative that can be evaluated numerically)
         x = self.scat_angle(theta_0, theta_ex, phi_0, phi_ex, a=self.a)
-        return 1.0 / sp.pi * (x * (1.0 + sp.sign(x)) / 2.0) ** self.i
+        return 1.0 / sp.pi * sp.Piecewise((x, x > 0.0), (0.0, True)) ** self.i
 
 
 class HenyeyGreenstein(Surface):
-- 
2.43.0


From fbdf8f27e920c70f1f0c5f938a4b9b8cf98aef57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 21/55] fix: jacobian of groups whose observations are not
 adjacent

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 56bc992..538e956 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1887,8 +1887,10 @@ class Fits(Scatter):
                 data = np.fromiter(chain(*jac[i]), dtype=float, count=jac_size)
                 row_ind, col_ind = self._jac_assign_rule[key]
                 # generate a sparse matrix
+                # (the values must be sorted according to the column-indexes
+                # since the observations of a group need not be adjacent!)
                 m = csr_matrix(
-                    (data, (row_ind, col_ind)),
+                    (data[col_ind], (row_ind, col_ind)),
                     shape=(max(row_ind) + 1, max(col_ind) + 1),
                 )
                 newjacdict[key] = m
-- 
2.43.0


From cfadfdc712847c4c8ff40f9812cef2dc9826f9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 22/55] fix: use the parameters of combined scattering
 functions when performing a fit

---
 rt1/rtfits.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 538e956..ac42f54 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2143,8 +2143,8 @@ class Fits(Scatter):
                 if key not in ignore_keys and isinstance(setdict[val], sp.Symbol):
                     free_symbols.add(setdict[val])
 
-            # check if val is a number, if yes use it directly
-            elif isinstance(val, (int, float, np.ndarray)):
+            # check if val is a number (or unset), if yes use it directly
+            elif val is None or isinstance(val, (int, float, np.ndarray)):
                 useval = val
             # in any other case, try to sympify the provided value
             # to determine the free variables of the resulting equation and
@@ -2173,7 +2173,10 @@ class Fits(Scatter):
                 for val, initdict in props[f"{prefix}choices"]:
                     useval = checkval(val, val)
 
-                    choices.append([useval, self._init_V_SRF(initdict)])
+                    choice = self._init_V_SRF(initdict, setdict=setdict)
+                    # (the definitions of the combined functions may use parameters too)
+                    free_symbols.update(choice.free_symbols)
+                    choices.append([useval, choice])
 
                 set_dict[f"{prefix}choices"] = choices
 
-- 
2.43.0


From f839e6b7945eecdea59720d8e5ab74a5ab058b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:43 +0000
Subject: [PATCH 23/55] fix: check the proper angle if phi_ex is treated as
 fixed

---
 rt1/surface.py | 4 ++--
 rt1/volume.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/rt1/surface.py b/rt1/surface.py
index 884a0cc..03bad90 100644
--- a/rt1/surface.py
+++ b/rt1/surface.py
@@ -254,7 +254,7 @@ class Surface(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
@@ -388,7 +388,7 @@ class Surface(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
diff --git a/rt1/volume.py b/rt1/volume.py
index 8adbb80..1ae9ed9 100644
--- a/rt1/volume.py
+++ b/rt1/volume.py
@@ -253,7 +253,7 @@ class Volume(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
@@ -426,7 +426,7 @@ class Volume(Scatter):
             if geometry[3] == "v":
                 phi_ex = sp.Symbol("phi_ex")
             elif geometry[3] == "f":
-                assert len(np.unique(p_0)) == 1, (
+                assert len(np.unique(p_ex)) == 1, (
                     "p_ex must contain only"
                     + " a single unique value for geometry[3] == f"
                 )
-- 
2.43.0


From 4c104b88627d2f89207dba732e069fd9dfc66da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 24/55] fix: replace nan-values caused by tau=0 for arrays of
 tau

---
 rt1/rt1.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 3f9ef0f..f832621 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -701,10 +701,8 @@ class RT1(object):
                 Iint = self.interaction()
                 # check if there are nan-values present that result from
                 # (self.V.tau = 0) and replace them with 0
-                wherenan = np.isnan(Iint)
-                if np.any(wherenan) and np.allclose(
-                    *np.broadcast_arrays(wherenan, self.V.tau == 0.0)
-                ):
+                wherenan = np.isnan(Iint) & (self.V.tau == 0.0)
+                if np.any(wherenan):
                     self.prv(
                         3,
                         "Warning replacing nan-values caused by tau=0 \
-- 
2.43.0


From 76ad064dffc0152373507e9760be53e64a93c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 25/55] fix: interaction-contribution for fixed angles and
 constant fn-coefficients

---
 rt1/rt1.py | 54 +++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index f832621..07bc2a9 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -203,7 +203,7 @@ class RT1(object):
         # this is required since functions created by
         # symengine are currently not pickleable!
         log.info("dropping fn-coefficients to allow pickling...")
-        for delkey in ["_RT1__fn"]:
+        for delkey in ["_RT1__fn", "_RT1__exchanged"]:
             if delkey in self.__dict__:
                 log.info(f"removing {delkey} from __dict__")
                 del self.__dict__[delkey]
@@ -1260,9 +1260,9 @@ class RT1(object):
                 *self.param_dict.values(),
             )
 
-            # to correct for 0 dimensional arrays if a fn-coefficient
-            # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(args))
+            # to correct for 0 dimensional arrays if a fn-coefficient is constant
+            # or identical to 0 (in a symbolic manner)
+            fn = np.broadcast_arrays(*self._fnevals(args), args[0])[:-1]
         else:
             args = np.broadcast_arrays(
                 np.arccos(mu1),
@@ -1271,9 +1271,9 @@ class RT1(object):
                 phi2,
                 *self.param_dict.values(),
             )
-            # to correct for 0 dimensional arrays if a fn-coefficient
-            # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(*args))
+            # to correct for 0 dimensional arrays if a fn-coefficient is constant
+            # or identical to 0 (in a symbolic manner)
+            fn = np.broadcast_arrays(*self._fnevals(*args), args[0])[:-1]
 
         multip = self._mu_0_x * self._S2_mu(mu1, self.V.tau)
         S = np.sum(fn * multip, axis=0)
@@ -1292,6 +1292,13 @@ class RT1(object):
         """
         mu1, mu2, phi1, phi2 = self._mu_ex, self._mu_0, self.p_ex, self.p_0
 
+        # angles that are treated as fixed are already part of the fn-coefficients
+        # so they can not be exchanged when evaluating the coefficients
+        if self.geometry != "mono" and "f" in self.geometry:
+            fnevals = self._exchanged._fnevals
+        else:
+            fnevals = self._fnevals
+
         # evaluate fn-coefficients
         if self.lambda_backend == "symengine":
             args = np.broadcast_arrays(
@@ -1302,9 +1309,9 @@ class RT1(object):
                 *self.param_dict.values(),
             )
 
-            # to correct for 0 dimensional arrays if a fn-coefficient
-            # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(args))
+            # to correct for 0 dimensional arrays if a fn-coefficient is constant
+            # or identical to 0 (in a symbolic manner)
+            fn = np.broadcast_arrays(*fnevals(args), args[0])[:-1]
         else:
             args = np.broadcast_arrays(
                 np.arccos(mu1),
@@ -1313,14 +1320,35 @@ class RT1(object):
                 phi2,
                 *self.param_dict.values(),
             )
-            # to correct for 0 dimensional arrays if a fn-coefficient
-            # is identical to 0 (in a symbolic manner)
-            fn = np.broadcast_arrays(*self._fnevals(*args))
+            # to correct for 0 dimensional arrays if a fn-coefficient is constant
+            # or identical to 0 (in a symbolic manner)
+            fn = np.broadcast_arrays(*fnevals(*args), args[0])[:-1]
 
         multip = self._mu_ex_x * self._S2_mu(mu1, self.V.tau)
         S = np.sum(fn * multip, axis=0)
         return S
 
+    @property
+    def _exchanged(self):
+        """RT1-object with exchanged incident- and exit-directions"""
+        try:
+            return self.__exchanged
+        except AttributeError:
+            self.__exchanged = RT1(
+                self.I0,
+                self.t_ex,
+                self.t_0,
+                self.p_ex,
+                self.p_0,
+                V=self.V,
+                SRF=self.SRF,
+                geometry="".join(self.geometry[i] for i in [1, 0, 3, 2]),
+                param_dict=self.param_dict,
+                lambda_backend=self.lambda_backend,
+                verbosity=self.verbosity,
+            )
+            return self.__exchanged
+
     @property
     @lru_cache()
     def _mu_0_x(self):
-- 
2.43.0


From eab372eef9a54788c37693fb6f273f0d63499868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 26/55] fix: discard cached results if a RT1-object is changed

---
 rt1/rt1.py | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/rt1/rt1.py b/rt1/rt1.py
index 07bc2a9..2b6f217 100644
--- a/rt1/rt1.py
+++ b/rt1/rt1.py
@@ -226,17 +226,46 @@ class RT1(object):
 
         names = [
             "_d_surface_dummy_lambda",
-            "_d_surface_dummy_lambda",
-            "_mu_0_x",
-            "_mu_ex_x",
+            "_d_volume_dummy_lambda",
         ]
         return names
 
     def _clear_cache(self):
         self._d_surface_dummy_lambda.cache_clear()
-        self._d_surface_dummy_lambda.cache_clear()
-        RT1._mu_0_x.fget.cache_clear()
-        RT1._mu_ex_x.fget.cache_clear()
+        self._d_volume_dummy_lambda.cache_clear()
+
+    def __setattr__(self, key, value):
+        old_params = list(self.__dict__.get("param_dict", []))
+        is_new = key not in self.__dict__
+        super().__setattr__(key, value)
+
+        # discard the results that have been evaluated with the previous value
+        if key in ["t_0", "t_ex", "p_0", "p_ex"]:
+            if self._is_fixed(key):
+                self._discard_fn()
+        elif is_new:
+            if key == "fn":
+                self.__dict__.pop("_RT1__fnevals", None)
+        elif key in ["geometry", "int_Q"]:
+            self._discard_fn()
+        elif key in ["V", "SRF"]:
+            self._discard_fn()
+            self._clear_cache()
+        elif key == "param_dict" and list(value) != old_params:
+            self.__dict__.pop("_RT1__fnevals", None)
+            self.__dict__.pop("_RT1__exchanged", None)
+            self._clear_cache()
+
+    def _is_fixed(self, angle):
+        """True if the fn-coefficients depend on the numeric values of the angle"""
+        if self.geometry == "mono":
+            return angle == "p_0"
+        return self.geometry[["t_0", "t_ex", "p_0", "p_ex"].index(angle)] == "f"
+
+    def _discard_fn(self):
+        """discard the fn-coefficients (they are re-evaluated if required)"""
+        for name in ["_RT1__fn", "_RT1__fnevals", "_RT1__exchanged"]:
+            self.__dict__.pop(name, None)
 
     def _cache_info(self):
         text = []
@@ -1350,14 +1379,12 @@ class RT1(object):
             return self.__exchanged
 
     @property
-    @lru_cache()
     def _mu_0_x(self):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
         mux = np.array([self._mu_0 ** (n + 1) for n in range(nmax)])
         return mux
 
     @property
-    @lru_cache()
     def _mu_ex_x(self):
         nmax = self.V.ncoefs + self.SRF.ncoefs - 1
         mux = np.array([self._mu_ex ** (n + 1) for n in range(nmax)])
-- 
2.43.0


From d81c36c14532f56ce1d7e94988b8c2cda12cacee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 27/55] fix: pair the values of metrics by observation

---
 rt1/rtmetrics.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/rt1/rtmetrics.py b/rt1/rtmetrics.py
index d95fed0..118dc48 100644
--- a/rt1/rtmetrics.py
+++ b/rt1/rtmetrics.py
@@ -159,11 +159,23 @@ class _RTmetrics1(object):
         elif source == "dataset":
             return self.fit.dataset[key]
         elif source == "calc_model" and key == "tot":
-            return self.fit.calc_model(return_components=False)[key]
+            vals = self.fit.calc_model(return_components=False)[key].values
+            return self._sort_as_dataset(vals, key)
         elif source == "calc_model":
-            return self.fit.calc_model(return_components=True)[key]
-        elif source == "res_df":
+            vals = self.fit.calc_model(return_components=True)[key].values
+            return self._sort_as_dataset(vals, key)
+        elif source == "res_df" and self._s1 == self._s2:
             return self.fit.res_df[key]
+        elif source == "res_df":
+            # use the value of each observation (res_df contains only one value
+            # for each timestamp)
+            vals = self.fit._assignvals(self.fit.res_dict)[key][~self.fit.mask]
+            return self._sort_as_dataset(vals, key)
+
+    def _sort_as_dataset(self, vals, key):
+        # grouped values are not necessarily in the order of the dataset!
+        order = np.argsort(np.asarray(self.fit._idx_assigns)[~self.fit.mask])
+        return pd.Series(vals[order], index=self.fit.dataset.index, name=key)
 
     @property
     @lru_cache()
-- 
2.43.0


From 3a1be087dec64dc898653cb06db2a72ab6391f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 28/55] fix: discard the functions of the interaction-term if
 the model definition changes

---
 rt1/rtfits.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index ac42f54..5b9798f 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -412,6 +412,11 @@ class Fits(Scatter):
                 log.debug(f"{attr} has been set, clearing cache")
                 self._clear_cache()
 
+        # the functions to evaluate the interaction-term depend on the definition
+        # of the model (nothing to discard while the object is initialized)
+        if attr in ["defdict", "set_V_SRF"] and "_defdict" in self.__dict__:
+            self._fnevals_input = None
+
         super().__setattr__(attr, value)
 
     @property
-- 
2.43.0


From ba31d19d73d58ad9baf4cb2aa70a2aa463478d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 29/55] fix: order of the parameters used to evaluate the
 interaction-term

---
 rt1/rtfits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 5b9798f..a722f48 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1692,7 +1692,11 @@ class Fits(Scatter):
         }
 
         # set the param-dict to the newly generated dict
-        R.param_dict = strparam_fn
+        # (make sure that the order is always the same since the functions to evaluate
+        # the fn-coefficients are called with positional arguments)
+        order = [key for key in R.param_dict if key in strparam_fn]
+        order += [key for key in strparam_fn if key not in order]
+        R.param_dict = {key: strparam_fn[key] for key in order}
 
         return R
 
-- 
2.43.0


From 5a74870f95ca4aec62b01f73204b6b40bebafa14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 30/55] fix: clear cached results if the dataset of a MultiFits
 object is replaced

---
 rt1/rtfits.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index a722f48..46939aa 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3244,9 +3244,8 @@ class MultiFits:
     def set_dataset(self, dataset):
         self._dataset = Fits._check_monotonic_dataset_index(dataset)
         for name in self.config_names:
-            # set "_dataset" directly instead of "dataset" to avoid checking the
-            # index-sorting twice in the dataset-setter
-            getattr(self.configs, name)._dataset = self._dataset
+            # (use the setter to make sure that cached properties are cleared)
+            getattr(self.configs, name).dataset = self._dataset
 
     def set_aux_data(self, aux_data):
         self._aux_data = aux_data
-- 
2.43.0


From c874477d23a8532d52cac020d1f1064eb8d17af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:10 +0000
Subject: [PATCH 31/55] fix: pass on share_fnevals and share_auxdata in
 reinit_object

---
 rt1/rtfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 46939aa..2ad7777 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2789,7 +2789,9 @@ class Fits(Scatter):
             a new Fits-object.
 
         """
-        return self._reinit_object(self, **kwargs)
+        return self._reinit_object(
+            self, share_fnevals=share_fnevals, share_auxdata=share_auxdata, **kwargs
+        )
 
     def _get_res_dict_df(self, ID=None):
         """
-- 
2.43.0


From b64b57961c5116b792850f1ac6125c982af34de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 32/55] fix: share reader_arg and ID with configurations that
 are added to a MultiFits object

---
 rt1/rtfits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 2ad7777..6ab4d62 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3329,12 +3329,16 @@ class MultiFits:
         assert name not in set(
             self.__dict__
         ), f"you can not use {name} as the name for a configuration!"
-        self.config_names.append(name)
 
         fit_object.dataset = self.dataset
         fit_object.aux_data = self.aux_data
+        fit_object.reader_arg = self.reader_arg
+        if len(self.config_names) > 0:
+            fit_object._ID = self.ID
         fit_object.config_name = name
         setattr(self.configs, name, fit_object)
+        if name not in self.config_names:
+            self.config_names.append(name)
 
     def dump(self, path, mini=True):
         """
-- 
2.43.0


From 0ec7fb53b9007c334e1889a1701bac3fcd190ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:54 +0000
Subject: [PATCH 33/55] fix: arguments of functions called via the MultiFits
 accessor

---
 rt1/rtfits.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 6ab4d62..76dd5ab 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -3034,7 +3034,7 @@ class _MultiAccessors:
                     self,
                     prop,
                     update_wrapper(
-                        partial(self._applyit, prop=prop), getattr(Fits(), prop)
+                        partial(self._applyit, prop), getattr(Fits(), prop)
                     ),
                 )
             elif isinstance(getattr(Fits, prop), property):
@@ -3068,16 +3068,12 @@ class _MultiAccessors:
 
         @wraps(getattr(Fits, prop))
         def cb(*args, **kwargs):
-            for i, arg in enumerate(args):
-                # update args and kwargs with new provided ones in case the function is
-                # called explicitly
-                if i < len(start_args):
-                    start_args[i] = arg
-                else:
-                    start_args.append(arg)
-            start_kwargs.update(kwargs)
+            # update args and kwargs with new provided ones in case the function is
+            # called explicitly
+            use_args = [*args, *start_args[len(args) :]]
+            use_kwargs = {**start_kwargs, **kwargs}
 
-            return methodcaller(prop, *start_args, **start_kwargs)(val)
+            return methodcaller(prop, *use_args, **use_kwargs)(val)
 
         return cb
 
-- 
2.43.0


From 0915e4d5ff35483cbbb7cfe649def63c77e0554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 34/55] fix: treat None (or no value) as None for options that
 are parsed as numbers

---
 rt1/rtparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index e066dc2..98bf8bd 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -226,7 +226,10 @@ class RT1_configparser(object):
 
         parsed_dict = dict()
         for key in inp:
-            if key in float_keys:
+            if inp[key] in [None, "None"] and key in [*float_keys, *int_keys]:
+                # parse None (or no value) as "real" None
+                val = None
+            elif key in float_keys:
                 val = inp.getfloat(key)
             elif key in int_keys:
                 val = inp.getint(key)
-- 
2.43.0


From b29dda1b77a328ad6de5b5582fd0168162474257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 35/55] fix: parsing of None and of empty lists in
 PROCESS_SPECS

---
 rt1/rtparse.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index 98bf8bd..8d90e54 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -591,7 +591,15 @@ class RT1_configparser(object):
             if val == "None":
                 val = None
 
-            if key.startswith("datetime__"):
+            if val is None:
+                # the prefixes are not part of the name (irrespective of the value)
+                name = key[6:] if key.startswith("list__") else key
+                for prefix in ["datetime__", "path__", "bool__", "float__", "int__"]:
+                    if name.startswith(prefix):
+                        name = name[len(prefix) :]
+                        break
+                process_specs[name] = None
+            elif key.startswith("datetime__"):
                 date = dict(zip(["s", "fmt"], [i.strip() for i in val.split("fmt=")]))
                 process_specs[key[10:]] = self._to_dt(**date)
             elif key.startswith("path__"):
@@ -646,8 +654,9 @@ class RT1_configparser(object):
                         def conffunc(x):
                             return x
 
+                    values = val.strip()[1:-1].strip()
                     process_specs[listkey] = [
-                        conffunc(i.strip()) for i in val.strip()[1:-1].split(",")
+                        conffunc(i.strip()) for i in values.split(",") if values
                     ]
 
                 else:
-- 
2.43.0


From ba7259231646060d98063eac7cd3287b0dad2209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 36/55] fix: keep all previously set sections if init_kwargs
 are updated

---
 rt1/rtprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 81da933..710ee50 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -234,10 +234,10 @@ class RTprocess(object):
             }
 
         if override is False:
-            for section, init_defs in init_kwargs.items():
+            for section, init_defs in self.init_kwargs.items():
                 init_kwargs[section] = {
-                    **self.init_kwargs.get(section, {}),
                     **init_defs,
+                    **init_kwargs.get(section, {}),
                 }
 
         self.init_kwargs = init_kwargs
-- 
2.43.0


From a063b69288b9a75b2823113967fddf40b482aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 37/55] fix: accept init_kwargs in the initialization of
 RTprocess

---
 rt1/rtprocess.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 710ee50..b1dd722 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -123,9 +123,9 @@ class RTprocess(object):
             a parent fit-object. (if None it will be set-up
             using the specifications of the .ini file) The default is None.
         init_kwargs : dict, optional
-            Additional keyword-arguments passed to the initialization of the
-            'proc_cls' class. (used to append-to or partially overwrite
-            definitions passed via the config-file). The default is None.
+            A dict of the form {section : {key : value}} used to append-to or
+            partially overwrite the definitions passed via the config-file.
+            (see `RTprocess.override_config()`). The default is None.
         hdf_export_kwargs: dict, optional
             a dict passed to fit._get_fit_to_hdf_dict()
             (use it to set which variables to store in the hdf-container)
@@ -152,10 +152,8 @@ class RTprocess(object):
         if init_kwargs is None:
             self.init_kwargs = dict()
         else:
-            assert all(
-                [isinstance(i, str) for i in init_kwargs.values()]
-            ), 'the values of "init_kwargs" MUST be strings !'
-            self.init_kwargs = init_kwargs
+            self.init_kwargs = dict()
+            self.override_config(**init_kwargs)
 
     @staticmethod
     def _listener_process(queue, dumppath, log_level=1):
-- 
2.43.0


From faae0e61d2f650d476e40ffb09a15716fb665858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 38/55] fix: use the specifications of the copied config-file

---
 rt1/rtprocess.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index b1dd722..bb8b950 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -333,6 +333,7 @@ class RTprocess(object):
         # copying is only performed in the main-process!
         if self.copy is True:
             self._copy_cfg_and_modules()
+            specs = self.cfg.get_process_specs()
 
         # get the name of the processing-module and the processing-class
         proc_module_name = specs.get("processing_cfg_module", "processing_cfg")
-- 
2.43.0


From 5ace49de29cace0d0fbb9c7a795e323f65a3c386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 39/55] fix: parts of linear-combinations defined in
 configuration-specific sections

---
 rt1/rtparse.py | 53 ++++++++++++++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 23 deletions(-)

diff --git a/rt1/rtparse.py b/rt1/rtparse.py
index 8d90e54..5eb0908 100644
--- a/rt1/rtparse.py
+++ b/rt1/rtparse.py
@@ -251,28 +251,37 @@ class RT1_configparser(object):
             parsed_dict[key] = val
         return parsed_dict
 
-    def _parse_V_SRF(self, section):
-        inp = self.config[section]
-
+    def _parse_V_SRF(self, section, config_section=None):
         parsed_dict = dict()
-        for key in inp:
-            val = None
-            if key == "ncoefs" or key[1:] == "__ncoefs":
-                val = inp.getint(key)
-            elif key == "a" or key[1:] == "__a":
-                val = inp[key]
-                if val.startswith("[") and val.endswith("]"):
-                    val = list(map(float, val[1:-1].replace(" ", "").split(",")))
-                else:
-                    assert False, f"the passed V/SRF value for {key} is not a list"
-            else:
-                # try to convert floats, if it fails return the string
-                try:
-                    val = inp.getfloat(key)
-                except Exception:
+        for name in [section, config_section]:
+            if name is None:
+                continue
+            inp = self.config[name]
+
+            if "V_name" in inp or "SRF_name" in inp:
+                # the parts of a linear-combination belong to the selected function
+                for key in list(parsed_dict):
+                    if key[0].isupper() and key[1:].startswith("__"):
+                        parsed_dict.pop(key)
+
+            for key in inp:
+                val = None
+                if key == "ncoefs" or key[1:] == "__ncoefs":
+                    val = inp.getint(key)
+                elif key == "a" or key[1:] == "__a":
                     val = inp[key]
+                    if val.startswith("[") and val.endswith("]"):
+                        val = list(map(float, val[1:-1].replace(" ", "").split(",")))
+                    else:
+                        assert False, f"the passed V/SRF value for {key} is not a list"
+                else:
+                    # try to convert floats, if it fails return the string
+                    try:
+                        val = inp.getfloat(key)
+                    except Exception:
+                        val = inp[key]
 
-            parsed_dict[key] = val
+                parsed_dict[key] = val
 
         for prefix in ["V", "SRF"]:
             if (
@@ -393,13 +402,11 @@ class RT1_configparser(object):
 
             # update RT1_V
             if f"#config {config} RT1_V" in self.config:
-                V_props = self._parse_V_SRF("RT1_V")
-                V_props.update(self._parse_V_SRF(f"#config {config} RT1_V"))
+                V_props = self._parse_V_SRF("RT1_V", f"#config {config} RT1_V")
                 set_V_SRF["V_props"] = V_props
             # update RT1_SRF
             if f"#config {config} RT1_SRF" in self.config:
-                SRF_props = self._parse_V_SRF("RT1_SRF")
-                SRF_props.update(self._parse_V_SRF(f"#config {config} RT1_SRF"))
+                SRF_props = self._parse_V_SRF("RT1_SRF", f"#config {config} RT1_SRF")
                 set_V_SRF["SRF_props"] = SRF_props
 
         return dict(
-- 
2.43.0


From 9c3de6f65f911e009dea74fea4929eafce566b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:10 +0000
Subject: [PATCH 40/55] fix: evaluate runs without a log-file
 (logfile_level=None)

---
 rt1/rtprocess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index bb8b950..4152d8a 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -876,7 +876,7 @@ class RTprocess(object):
                 # (otherwise the log-file can not be generated!)
                 self._worker_configurer(queue, loglevel=logfile_level)
             else:
-                queue, proc_counter = None
+                queue, proc_counter = None, None
 
             if logfile_level is not None:
                 # start the listener after the setup-function completed, since
@@ -936,7 +936,7 @@ class RTprocess(object):
                 queue=queue,
                 proc_counter=proc_counter,
                 dump_fit=dump_fit,
-                init_func=self._worker_configurer,
+                init_func=self._worker_configurer if queue is not None else None,
                 init_args=(queue, logfile_level),
                 create_index=create_index,
             )
@@ -1116,7 +1116,7 @@ class RTprocess(object):
                 proc_counter=proc_counter,
                 print_progress=print_progress,
                 create_index=create_index,
-                init_func=self._worker_configurer,
+                init_func=self._worker_configurer if queue is not None else None,
                 init_args=(queue, logfile_level),
                 **kwargs,
             )
-- 
2.43.0


From fc6b1dbc6b0570c4dad56c59ec382403d50b5f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 41/55] fix: don't use the auxiliary data of previous inputs in
 multi-config runs

---
 rt1/rtprocess.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 4152d8a..d4e0c9a 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -359,6 +359,7 @@ class RTprocess(object):
             self.parent_fit = self.cfg.get_fitobject()
         else:
             self.parent_fit = self._parent_fit
+        self._parent_aux_data = getattr(self.parent_fit, "aux_data", None)
 
         # check if all necessary functions are defined in the  processing-class
         for key in [
@@ -484,9 +485,11 @@ class RTprocess(object):
             if isinstance(self.parent_fit, MultiFits):
                 # set the dataset
                 self.parent_fit.set_dataset(dataset)
-                # set the aux_data
-                if aux_data is not None:
-                    self.parent_fit.set_aux_data(aux_data)
+                # set the aux_data (use the aux_data of the initial parent_fit if
+                # there is none to avoid using the aux_data of the previous ID)
+                if aux_data is None:
+                    aux_data = self._parent_aux_data
+                self.parent_fit.set_aux_data(aux_data)
                 # append reader_arg to all configs
                 self.parent_fit.set_reader_arg(reader_arg)
                 # set ID for all configs
-- 
2.43.0


From 560fb8f42676f420b9955de94d189ad004f9fa84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 42/55] fix: support all saving-options when storing fits

---
 rt1/rtfits.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 76dd5ab..394199d 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2929,19 +2929,20 @@ class Fits(Scatter):
                 if isinstance(self, MultiFits):
                     dynkeys = set(
                         key + "_dyn"
-                        for cfg, defdict in self.apply(lambda fit: self.defdict)
+                        for cfg, defdict in self.apply(lambda fit: fit.defdict)
                         for key, val in defdict.items()
-                        if val[0] and val[2] == "manual"
+                        if val[0] and "manual" in str(val[2])
                     )
                 else:
                     dynkeys = set(
                         key + "_dyn"
                         for key, val in self.defdict.items()
-                        if val[0] and val[2] == "manual"
+                        if val[0] and "manual" in str(val[2])
                     )
-                df = getattr(self, "dataset", None)[dynkeys]
+                if len(dynkeys) > 0:
+                    df = getattr(self, "dataset", None)[sorted(dynkeys)]
 
-                hf["dataset"] = Fits._prepend_ID_to_index(df, ID)
+                    hf["dataset"] = Fits._prepend_ID_to_index(df, ID)
         except Exception:
             log.debug(f"could not save 'dataset' for fit {ID}")
 
@@ -3183,11 +3184,17 @@ class MultiFits:
         return args
 
     def _get_fit_to_hdf_dict(
-        self, save_results=True, save_data=True, save_auxdata=True, ID=None
+        self,
+        save_results=True,
+        save_res_df=True,
+        save_data=True,
+        save_auxdata=True,
+        ID=None,
     ):
         return Fits._get_fit_to_hdf_dict(
             self,
             save_results=save_results,
+            save_res_df=save_res_df,
             save_data=save_data,
             save_auxdata=save_auxdata,
             ID=ID,
-- 
2.43.0


From 61eea2bef62c3e4d9bdc1873687588337cdae028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 43/55] fix: return the ID of fits loaded from the results
 database

---
 rt1/rtresults.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 4c24c8e..afd413f 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -371,7 +371,10 @@ class RTresults(object):
                 fit = self._load_fit_from_HDF(ID)
 
             if return_ID is True:
-                return (fit, filepath.stem)
+                if self._use_dumps is True or isinstance(ID, Path):
+                    return (fit, filepath.stem)
+                else:
+                    return (fit, fit.ID)
             else:
                 return fit
 
-- 
2.43.0


From 67f8df646c984dab934528d29fbb9568efe0352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 44/55] fix: export of constants, model-contributions, custom
 layers and units

---
 rt1/rtprocess.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index d4e0c9a..f89c37c 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1491,6 +1491,8 @@ class RTprocess(object):
 
         # ----- separate model-keys from the provided parameters
         model_keys = set(parameters) & set(["tot", "surf", "vol", "inter"])
+        # explicitly provided export-functions override the default extraction
+        model_keys -= set(export_functions if export_functions else [])
         parameters = set(parameters) ^ model_keys
 
         # ----- initialize a RTresults object for easy access to the list of dump-files
@@ -1544,6 +1546,8 @@ class RTprocess(object):
             metrics=metrics,
             export_functions=export_functions,
             model_keys=model_keys,
+            sig_to_dB=sig_to_dB,
+            inc_to_degree=inc_to_degree,
             _fnevals_input=fn_evals,
         )
 
@@ -1608,9 +1612,15 @@ class RTprocess(object):
             else:
                 fit._fnevals_input = _fnevals_input
 
+        # use a copy (the parameters are shared between all fits)
+        parameters = set(parameters)
+
         auxdata, staticlayers = dict(), dict()
         if model_keys:
-            auxdata = fit.calc_model(return_components=True)[model_keys]
+            auxdata = fit.calc_model(return_components=True)
+            auxdata = auxdata[[key for key in auxdata if key in model_keys]]
+            if fit.dB is False and sig_to_dB:
+                auxdata = 10.0 * np.log10(auxdata)
 
         if export_functions:
             for key, func in export_functions.items():
@@ -1728,7 +1738,7 @@ class RTprocess(object):
                 elif key in defs["fitted_const"]:
                     staticlayers[key] = fit.res_dict[key][0]
                 elif key in defs["constant"]:
-                    staticlayers[key] = fit.defdict[key].val.value
+                    staticlayers[key] = fit.defdict[key].val
                 elif key in defs["auxiliary"]:
                     usedfs.append(fit.dataset[key])
             elif key in fit.dataset:
-- 
2.43.0


From 7fc6a46b39cc97ebb256575ec096edbffac9aae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 45/55] fix: allow passing a single config-name to
 run_finaloutput

---
 rt1/rtprocess.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index f89c37c..284e4f1 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1174,6 +1174,8 @@ class RTprocess(object):
             if isinstance(self.parent_fit, MultiFits):
                 if use_config is None or use_config == "from_postprocess":
                     cfgs = self.parent_fit.config_names
+                elif isinstance(use_config, str):
+                    cfgs = [use_config]
                 else:
                     cfgs = use_config
 
@@ -1220,6 +1222,8 @@ class RTprocess(object):
                 fit, MultiFits
             ):
                 use_config = fit.config_names
+            elif isinstance(use_config, str):
+                use_config = [use_config]
 
             # assign pre-evaluated fn-coefficients
             if hasattr(self, "parent_fit"):
-- 
2.43.0


From 865291dbbe74da8651c4aeabb8692442f937546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:11 +0000
Subject: [PATCH 46/55] fix: restore numpy-values and non-finite values from
 stored definitions

---
 rt1/general_functions.py | 32 ++++++++++++++++++++++++++++++++
 rt1/rtfits.py            |  4 +++-
 rt1/rtresults.py         |  9 +++++----
 3 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/rt1/general_functions.py b/rt1/general_functions.py
index 82373ca..740c622 100644
--- a/rt1/general_functions.py
+++ b/rt1/general_functions.py
@@ -3,6 +3,7 @@
 from itertools import tee, islice, count, chain
 from collections import OrderedDict
 import keyword
+import ast
 
 try:
     import numpy as np
@@ -192,6 +193,37 @@ def pairwise(iterable, pairs=2):
     return zip(*x)
 
 
+def to_builtin(obj):
+    """
+    recursively convert numpy scalars and arrays found in (nested) dicts, lists
+    and tuples to the corresponding built-in python types
+    (e.g. to get a string-representation that can be evaluated again)
+    """
+    if isinstance(obj, dict):
+        return {to_builtin(key): to_builtin(val) for key, val in obj.items()}
+    elif isinstance(obj, (list, tuple)):
+        return type(obj)([to_builtin(val) for val in obj])
+    elif isinstance(obj, (np.generic, np.ndarray)):
+        return obj.tolist()
+    else:
+        return obj
+
+
+def eval_definition(definition):
+    """
+    evaluate the string-representation of a definition
+    (similar to `ast.literal_eval` but with support for "inf" and "nan")
+    """
+
+    class _NonFinite(ast.NodeTransformer):
+        def visit_Name(self, node):
+            if node.id in ["inf", "nan"]:
+                return ast.copy_location(ast.Constant(float(node.id)), node)
+            return node
+
+    return ast.literal_eval(_NonFinite().visit(ast.parse(definition, mode="eval")))
+
+
 def split_into(iterable, sizes):
     """
     a generator that splits the iterable into iterables with the given sizes
diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 394199d..8cc8c88 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -17,6 +17,7 @@ from .general_functions import (
     meandatetime,
     rectangularize,
     split_into,
+    to_builtin,
     update_progress,
     groupby_unsorted,
     isidentifier,
@@ -2753,7 +2754,8 @@ class Fits(Scatter):
             "lsq_kwargs": self.lsq_kwargs,
             "int_Q": self.int_Q,
         }
-        return args
+        # make sure that the string-representation can be re-evaluated
+        return to_builtin(args)
 
     def reinit_object(self, share_fnevals=False, share_auxdata=True, **kwargs):
         """
diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index afd413f..2512fef 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -6,7 +6,6 @@ from collections import defaultdict
 import weakref
 import os
 from pathlib import Path
-from ast import literal_eval
 import gc
 
 import pandas as pd
@@ -14,7 +13,7 @@ from numpy.random import choice
 
 from .rtparse import RT1_configparser
 from .rtfits import load, Fits, MultiFits
-from .general_functions import isidentifier
+from .general_functions import isidentifier, eval_definition
 from . import log
 
 
@@ -631,7 +630,9 @@ class HDFaccessor(object):
             if "cfg" in init_dict.index.names:
                 mf = MultiFits()
                 for cfg, cfg_attrs in init_dict.loc[ID].iterrows():
-                    attrs = {key: literal_eval(val) for key, val in cfg_attrs.items()}
+                    attrs = {
+                        key: eval_definition(val) for key, val in cfg_attrs.items()
+                    }
 
                     fit = Fits(**attrs)
 
@@ -662,7 +663,7 @@ class HDFaccessor(object):
 
             else:
                 attrs = {
-                    key: literal_eval(val) for key, val in init_dict.loc[ID].items()
+                    key: eval_definition(val) for key, val in init_dict.loc[ID].items()
                 }
                 fit = Fits(**attrs)
                 fit.ID = self.IDs.loc[ID].values[0]
-- 
2.43.0


From 729d4d7b3e96aa924880c54a4667400064adea57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:21 +0000
Subject: [PATCH 47/55] fix: don't prefix the ID of restored fits twice

---
 rt1/rtfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 8cc8c88..f309e80 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -426,7 +426,7 @@ class Fits(Scatter):
 
     @ID.setter
     def ID(self, ID):
-        if not isidentifier(str(ID)):
+        if not isidentifier(str(ID)) and not str(ID).startswith("RT1_"):
             self._ID = f"RT1_{ID}"
             log.debug(f"'{ID}' is not a valid identifier - using '{self._ID}'")
         else:
-- 
2.43.0


From 957544a25f830397d1de966f94a55a248d28ba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:10 +0000
Subject: [PATCH 48/55] fix: restore fits that have no rows in some of the
 stored tables

---
 rt1/rtfits.py    | 5 +++--
 rt1/rtresults.py | 9 ++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index f309e80..66b28eb 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2811,7 +2811,7 @@ class Fits(Scatter):
             ID = self.ID
 
         # convert res_dict to a dataframe
-        if self.res_dict is not None:
+        if self.res_dict:
             if hasattr(self, "config_name"):
                 idxcols = [[ID], [self.config_name]]
                 names = ["ID", "cfg", "n"]
@@ -2968,7 +2968,8 @@ class Fits(Scatter):
                 else:
                     df = self._get_res_dict_df(ID=ID)
 
-                hf["res_dict"] = df
+                if df is not None:
+                    hf["res_dict"] = df
             except Exception:
                 log.debug(f"could not save 'res_dict' for fit {ID}")
 
diff --git a/rt1/rtresults.py b/rt1/rtresults.py
index 2512fef..df3559c 100644
--- a/rt1/rtresults.py
+++ b/rt1/rtresults.py
@@ -600,14 +600,17 @@ class HDFaccessor(object):
                 print("'init_dict' not present... fit can not be loaded")
                 return
 
+            # (use None if there are no rows for this ID)
             try:
                 dataset = self.datasets.dataset.get_id(ID)
+                dataset = dataset if len(dataset) > 0 else None
             except Exception:
                 dataset = None
                 pass
 
             try:
                 aux_data = self.datasets.aux_data.get_id(ID)
+                aux_data = aux_data if len(aux_data) > 0 else None
             except Exception:
                 aux_data = None
                 pass
@@ -623,6 +626,7 @@ class HDFaccessor(object):
 
             try:
                 res_dict = self.datasets.res_dict.get_id(ID)
+                res_dict = res_dict if len(res_dict) > 0 else None
             except Exception:
                 res_dict = None
                 pass
@@ -636,7 +640,10 @@ class HDFaccessor(object):
 
                     fit = Fits(**attrs)
 
-                    if res_dict is not None:
+                    if res_dict is not None and cfg not in res_dict.loc[ID].index:
+                        # configurations without fitted parameters
+                        fit.res_dict = dict()
+                    elif res_dict is not None:
                         # use dropna(how="all", axis=1) to make sure that parameters that
                         # are fitted in one config but not in another are not added as
                         # empty lists!
-- 
2.43.0


From be45b3bc53ed8708443f2332c83e50fa46592fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:10 +0000
Subject: [PATCH 49/55] fix: store definitions of functions that use
 expressions of parameters

---
 rt1/rtfits.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index 66b28eb..ead0c72 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -2739,8 +2739,10 @@ class Fits(Scatter):
             return self.set_V_SRF
         else:
             try:
-                # init V and SRF with string-variables
-                V, SRF = self.set_V_SRF(**dict(zip(*[self.defdict._variables] * 2)))
+                # init V and SRF with symbols (to support expressions of parameters)
+                V, SRF = self.set_V_SRF(
+                    **{key: sp.Symbol(key) for key in self.defdict._variables}
+                )
                 return dict(V_props=V.init_dict, SRF_props=SRF.init_dict)
             except TypeError:
                 log.error("Not all variables are specified in defdict!", exc_info=True)
-- 
2.43.0


From 13cdf35c5a19d23b4a7c75614d6638f6cbc6674e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:10 +0000
Subject: [PATCH 50/55] fix: store already existing dump-files with the number
 of the processed ID

---
 rt1/processing_config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rt1/processing_config.py b/rt1/processing_config.py
index 475711d..2ffeba2 100644
--- a/rt1/processing_config.py
+++ b/rt1/processing_config.py
@@ -223,7 +223,9 @@ class rt1_processing_config(object):
 
             try:
                 fit = load(self.rt1_procsesing_dumppath / names_ids["filename"])
-                return fit._get_fit_to_hdf_dict()
+                return fit._get_fit_to_hdf_dict(
+                    ID=reader_arg.get("_RT1_ID_num", None)
+                )
             except Exception:
                 log.error(
                     "there has been a problem while loading the "
-- 
2.43.0


From d848e39b06aebbad7365c40a51b544bded73c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:59 +0000
Subject: [PATCH 51/55] fix: pre-evaluate fn-coefficients if parameters are
 provided via the dataset

---
 rt1/rtfits.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/rt1/rtfits.py b/rt1/rtfits.py
index ead0c72..c42466a 100644
--- a/rt1/rtfits.py
+++ b/rt1/rtfits.py
@@ -1262,7 +1262,23 @@ class Fits(Scatter):
         the fn-coefficients (as needed for evaluation of the interaction-term)
         """
 
-        param_R = dict(**self._startvaldict, **self.fixed_dict)
+        if self.dataset is None:
+            # values provided via the dataset are not (yet) available
+            # (only the names are relevant to evaluate the fn-coefficients)
+            startvaldict = {
+                key: 1.0 if isinstance(val[1], str) else val[1]
+                for key, val in self.defdict.items()
+                if val[0] is True
+            }
+            fixed_dict = {
+                key: 1.0
+                for key, val in self._fixed_dict.items()
+                if isinstance(val, str) and val == "auxiliary"
+            }
+        else:
+            startvaldict, fixed_dict = self._startvaldict, self.fixed_dict
+
+        param_R = dict(**startvaldict, **fixed_dict)
         param_R.pop("omega", None)
         param_R.pop("tau", None)
         param_R.pop("NormBRDF", None)
@@ -1276,8 +1292,8 @@ class Fits(Scatter):
         vsymb = self._Vsymb - angset
         srfsymb = self._SRFsymb - angset
 
-        paramset = set(map(str, self._startvaldict.keys())) ^ set(
-            map(str, self.fixed_dict.keys())
+        paramset = set(map(str, startvaldict.keys())) ^ set(
+            map(str, fixed_dict.keys())
         )
 
         assert paramset >= (vsymb | srfsymb), (
-- 
2.43.0


From 20092aa51b779c0eef6406e4bc821fe8eb06d75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:48 +0000
Subject: [PATCH 52/55] fix: recognize already exported IDs that are no valid
 identifiers

---
 rt1/rtprocess.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index 284e4f1..aef6b26 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1196,6 +1196,7 @@ class RTprocess(object):
                 arg_list=fitlist,
                 reader_func=self._finalout_reader,
                 process_func=self._run_postprocess,
+                ID_getter=self._finalout_ID,
                 pool_kwargs=pool_kwargs,
                 starmap_args=[
                     repeat(use_config),
@@ -1211,6 +1212,18 @@ class RTprocess(object):
 
         return res
 
+    @staticmethod
+    def _finalout_ID(reader_arg):
+        # get the ID (as it will be stored) of an entry of the list of fits
+        ID = str(reader_arg["ID"])
+        if ID.endswith(".dump"):
+            ID = Path(ID).stem
+        elif ID.startswith("RT1_"):
+            # IDs obtained from "fit_db.h5"
+            return ID
+
+        return ID if isidentifier(ID) else f"RT1_{ID}"
+
     def _finalout_reader(self, reader_arg, use_config=None):
         ID = reader_arg["ID"]
         # load fitobjects based on IDs
-- 
2.43.0


From ee63d6b4cb4d924aeab59ff5da96422430a8aea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:48 +0000
Subject: [PATCH 53/55] fix: export dump-files also if a database with other
 ID-names exists

---
 rt1/rtprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/rtprocess.py b/rt1/rtprocess.py
index aef6b26..3f163e8 100644
--- a/rt1/rtprocess.py
+++ b/rt1/rtprocess.py
@@ -1538,7 +1538,7 @@ class RTprocess(object):
         # ----- get list of paths to fit-objects
         self._useres = getattr(res, dumpfolder)
         # load the first fit-object to pre-load fn-coefficients
-        if hasattr(self._useres, "fit_db"):
+        if not kwargs.get("use_dumps", False) and hasattr(self._useres, "fit_db"):
             fit0_ID = self._useres.fit_db.IDs.values.flat[0]
         else:
             fit0_ID = 0
-- 
2.43.0


From 4767d2b11351786abe326bc080ccc8b86323e05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:54 +0000
Subject: [PATCH 54/55] fix: index-levels of tables with a single index-level
 could not be selected (create_index)

---
 rt1/_rtprocess_writer.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 8003829..50eae22 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -727,27 +727,17 @@ class RT1_processor(object):
             for key in use_keys:
                 s = store.get_storer(key)
                 s_levels = s.levels
+                if not isinstance(s_levels, (list, tuple)):
+                    # tables with a single index-level only provide the number
+                    # of levels (the corresponding column is called "index")
+                    s_levels = ["index"]
 
                 if idx_levels is None:
-                    try:
-                        # if s_levels is iterable and idx_cols is None,
-                        # use the first level
-                        iter(s_levels)
-                        use_levels = [s.levels[0]]
-                    except TypeError:
-                        # else use whatever the level-identification available
-                        use_levels = [s.levels]
-
+                    # use the first level
+                    use_levels = [s_levels[0]]
                 elif idx_levels == "all":
-                    try:
-                        # if s_levels is iterable and idx_cols is None,
-                        # use all available levels
-                        iter(s_levels)
-                        use_levels = s.levels
-                    except TypeError:
-                        # else use whatever the level-identification available
-                        use_levels = s.levels
-
+                    # use all available levels
+                    use_levels = s_levels
                 else:
                     use_levels = list(set(idx_levels) & set(s_levels))
 
-- 
2.43.0


From 75d683b449d1d0da23c0fcb622cd05f6940b1de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:54 +0000
Subject: [PATCH 55/55] fix: constant tables could not be read with get_data()

---
 rt1/_rtprocess_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rt1/_rtprocess_writer.py b/rt1/_rtprocess_writer.py
index 50eae22..2896313 100644
--- a/rt1/_rtprocess_writer.py
+++ b/rt1/_rtprocess_writer.py
@@ -790,6 +790,6 @@ class RT1_processor(object):
                     + "\n    ".join(f"{key}: {val}" for key, val in cfg_keys.items())
                 )
 
-            usekey = f"{config}/{key}"
+            usekey = key if config is None else f"{config}/{key}"
             res = store.select(usekey, **kwargs)
         return res
-- 
2.43.0

