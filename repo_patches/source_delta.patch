From 0d2ea0e8546ebbcdf2e5ffdea8f10495166a8b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:24 +0000
Subject: [PATCH 01/63] fix: convert byte order before the jitted extraction in
 the chunked reader

---
 swiftsimio/accelerated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 8d1f65d..31e6a6e 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -417,12 +417,12 @@ def read_ranges_from_file_chunked(
 
         already_read += size_of_range
 
+    # Ensure the result is a native endian type (needed by the jitted extraction)
+    to_native_byteorder_inplace(output)
+
     if handle.chunks is not None:
         output = extract_ranges_from_chunks(output, chunk_ranges, ranges)
 
-    # Ensure the result is a native endian type
-    to_native_byteorder_inplace(output)
-
     return output
 
 
-- 
2.43.0


From 63e3804664f72944168222532571269d93edeff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 02/63] fix: order cells by all particle types so that empty
 cells do not scramble masks

---
 swiftsimio/masks.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 88fe7d2..302b083 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -379,22 +379,24 @@ class SWIFTMask(HandleProvider):
             self.maxpositions["shared"] = (
                 centers_values + (pad_cells + 0.5) * metadata_handle.attrs["size"]
             )
-        # Only want to compute this once (even if it is fast, we do not
-        # have a reliable stable sort in the case where cells do not
-        # contain at least one of each type of particle).
-        self.cell_sort = None
+        # When using MPI, we cannot assume that cells are sorted. Only want to
+        # compute the order once: cells are written in the same order for every
+        # particle type, so the totals over all types (offset, then count for
+        # completely empty cells) also order the cells that do not contain at
+        # least one of each type of particle.
+        no_cells = np.zeros(len(centers_values), dtype=int)
+        self.cell_sort = np.lexsort(
+            (
+                sum(self.counts.values(), no_cells),
+                sum(self.offsets.values(), no_cells),
+            )
+        )
 
         # Now perform sort:
         for key in self.offsets.keys():
             offsets = self.offsets[key]
             counts = self.counts[key]
 
-            # When using MPI, we cannot assume that these are sorted.
-            if self.cell_sort is None:
-                # Only compute once; not stable between particle
-                # types if some datasets do not have particles in a cell!
-                self.cell_sort = np.argsort(offsets, stable=True)
-
             self.offsets[key] = offsets[self.cell_sort]
             self.counts[key] = counts[self.cell_sort]
 
-- 
2.43.0


From aeffa38c3274e9d80b91bdde228dc92b7bff5be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:32 +0000
Subject: [PATCH 03/63] fix: rebuild boolean masks from the cell masks so that
 unions can add cells

---
 swiftsimio/masks.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/swiftsimio/masks.py b/swiftsimio/masks.py
index 302b083..2be3e9f 100644
--- a/swiftsimio/masks.py
+++ b/swiftsimio/masks.py
@@ -666,9 +666,9 @@ class SWIFTMask(HandleProvider):
         """
         Update the particle masks using the cell masks.
 
-        We actually overwrite all non-used cells with ``False``, rather than the
-        inverse, as we assume initially that we want to read all particles in,
-        and we want to respect other masks that may have been applied to the data.
+        Spatial constraints can only be combined with other spatial constraints, all
+        of which are recorded in the cell masks, so these determine the particle masks
+        completely.
         """
         for data_name in self.update_list:
             count_name = data_name[1:]  # Remove the underscore
@@ -683,18 +683,15 @@ class SWIFTMask(HandleProvider):
                 setattr(self, f"{data_name}_size", np.sum(counts))
 
             else:
-                counts = self.counts[count_name][
-                    np.logical_not(self.cell_mask[count_name])
-                ]
-                offsets = self.offsets[count_name][
-                    np.logical_not(self.cell_mask[count_name])
-                ]
+                counts = self.counts[count_name][self.cell_mask[count_name]]
+                offsets = self.offsets[count_name][self.cell_mask[count_name]]
 
                 # We must do the whole boolean mask business.
                 this_mask = getattr(self, data_name)
+                this_mask[:] = False
 
                 for count, offset in zip(counts, offsets):
-                    this_mask[offset : count + offset] = False
+                    this_mask[offset : count + offset] = True
 
         return
 
-- 
2.43.0


From f5eafce0fdac1f0fc9efe7161476a02301a3594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:51 +0000
Subject: [PATCH 04/63] fix: subset of datasets with no rows or a single column
 keeps its shape

---
 swiftsimio/subset_writer.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index b402735..2951f5a 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -351,13 +351,9 @@ def _write_datasubset(
                 continue
 
             # get output dtype and size
-            first_value = infile[name][0]
-            output_type = first_value.dtype
-            output_size = first_value.size
+            output_type = infile[name].dtype
             mask_size = _get_dataset_size(mask, name)
-            output_shape = (
-                (mask_size, output_size) if output_size != 1 else (mask_size,)
-            )
+            output_shape = (mask_size, *infile[name].shape[1:])
 
             if (dataset_mask := _get_dataset_mask(mask, name)) is None:
                 raise RuntimeError(f"Could not find mask for dataset `{name}`.")
-- 
2.43.0


From 7c151031dadb7576ce7a831efbbe3b16e68efa0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:58 +0000
Subject: [PATCH 05/63] fix: match links and groups by path when writing a
 subset, keep nested links

---
 swiftsimio/subset_writer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/subset_writer.py b/swiftsimio/subset_writer.py
index 2951f5a..1f6be70 100644
--- a/swiftsimio/subset_writer.py
+++ b/swiftsimio/subset_writer.py
@@ -181,7 +181,9 @@ def _find_links(
             link_paths.append(dataset.path)
         elif getattr(input_file[subpath], "keys", lambda: None)() is not None:
             # has `keys` so it's not a Dataset
-            _find_links(input_file, link_names, link_paths, subpath)
+            nested_names, nested_paths = _find_links(input_file, path=subpath)
+            link_names.extend(nested_names)
+            link_paths.extend(nested_paths)
 
     return link_names, link_paths
 
@@ -276,7 +278,7 @@ def _write_metadata(
     skip_list += ["Cells"]
     skip_list += set(group.split("/")[0] for group in mask.metadata.present_groups)
     for field in infile.keys():
-        if not any([substr for substr in skip_list if substr in field]):
+        if field not in skip_list:
             # HDF5<14 can segfault for these groups when infile.copy() is called
             # due to the arrays of strings stored in the attributes
             output_type = infile[field].attrs.get("OutputType", "FullVolume")
@@ -347,7 +349,7 @@ def _write_datasubset(
     skip_list.extend(["Cells", "SubgridScheme", "PartTypeNames"])
     if mask is not None:
         for name in dataset_names:
-            if any([substr for substr in skip_list if substr in name]):
+            if any(f"{name}/".startswith(f"/{skip}/") for skip in skip_list):
                 continue
 
             # get output dtype and size
@@ -388,7 +390,8 @@ def _connect_links(
         List of paths specifying how to link each soft link.
     """
     for i in range(len(links_list)):
-        outfile[links_list[i]] = h5py.SoftLink(paths_list[i])
+        if outfile.get(links_list[i], getlink=True) is None:
+            outfile[links_list[i]] = h5py.SoftLink(paths_list[i])
 
 
 def write_subset(
-- 
2.43.0


From 72b28a2c143b406a633ebcd527b68d161927b82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 06/63] fix: convert the comoving arguments when mixed
 arguments are made physical

---
 swiftsimio/_array_functions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6095783..3c75592 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -934,7 +934,7 @@ def _prepare_array_func_args(
     else:
         # mix of comoving and physical inputs
         if _default_cm:
-            for arg, cm in zip(args, cms):
+            for arg in list(args) + list(kwargs.values()):
                 # None is not the same as False here:
                 if getattr(arg, "valid_transform", None) is False:
                     _default_cm = False
@@ -951,11 +951,11 @@ def _prepare_array_func_args(
             ret_cm = True
         else:
             args = [
-                arg.to_physical() if cm[0] and not cm[1] else arg
+                arg.to_physical() if cm[0] and cm[1] else arg
                 for arg, cm in zip(args, cms)
             ]
             kwargs = {
-                k: kwarg.to_physical() if kw_cms[k][0] and not kw_cms[k][1] else kwarg
+                k: kwarg.to_physical() if kw_cms[k][0] and kw_cms[k][1] else kwarg
                 for k, kwarg in kwargs.items()
             }
             ret_cm = False
-- 
2.43.0


From 04f96cc4499af0141495b64b90bfd644607a80c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 07/63] fix: keep the compression note itself, not the
 (present, note) pair

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 3c75592..6d4ec92 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -962,7 +962,7 @@ def _prepare_array_func_args(
     ret_vt = all(vts + list(kw_vts.values()))  # if any False, then False
     if len(set(comps + list(kw_comps.values()))) == 1:
         # all compressions identical, preserve it
-        ret_comp = (comps + list(kw_comps.values()))[0]
+        ret_comp = (comps + list(kw_comps.values()))[0][1]
     else:
         # mixed compressions, strip it off
         ret_comp = None
-- 
2.43.0


From a1dd6f41fb02bb3ec83ff37d7754282e1c8fccc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 08/63] fix: check the cosmo_factors of every array that is
 joined, not only the first

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6d4ec92..f046c47 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1263,7 +1263,7 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
         """
         helper_result = _prepare_array_func_args(*args, **kwargs)
         helper_result_oplist = _prepare_array_func_args(*args[0])
-        ret_cf = _preserve_cosmo_factor(helper_result_oplist["cfs"][0])
+        ret_cf = _preserve_cosmo_factor(*helper_result_oplist["cfs"])
         res = unyt_func(
             helper_result_oplist["args"],
             *helper_result["args"][1:],
-- 
2.43.0


From eae8698f46dc70f188bb881dc482a38f2f6f154a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:53 +0000
Subject: [PATCH 09/63] fix: np.block attaches the cosmo_factor, not a list
 holding it

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index f046c47..86210e9 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1635,7 +1635,7 @@ def _prepare_array_block_args(lst: list, recursing: bool = False) -> dict:
     cms = [hr["comoving"] for hr in helper_results]
     vts = [hr["valid_transform"] for hr in helper_results]
     comps = [hr["compression"] for hr in helper_results]
-    cfs = [hr["cfs"] for hr in helper_results]
+    cfs = [hr["cfs"][0] for hr in helper_results]
     convert_to_cm = False
     if all(cms):
         ret_cm = True
-- 
2.43.0


From 61c9f78bde268d9c7776dbed17d37cc53827d051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 10/63] fix: histogram bin edges given as arrays work and need
 a matching cosmo_factor

---
 swiftsimio/_array_functions.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 86210e9..b7110d8 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1300,6 +1300,24 @@ implements(np.outer)(_default_binary_wrapper(unyt_outer, _multiply_cosmo_factor)
 implements(np.kron)(_default_binary_wrapper(unyt_kron, _multiply_cosmo_factor))
 
 
+def _check_bins_cosmo_factor(helper_result: dict) -> None:
+    """
+    Check that bin edges have the same cosmo_factor as the values to be binned.
+
+    Parameters
+    ----------
+    helper_result : dict
+        Helper function result for the values (first argument) and ``bins`` (keyword).
+
+    Raises
+    ------
+    ValueError
+        If ``bins`` has a cosmo_factor that differs from that of the values.
+    """
+    if helper_result["kw_cfs"]["bins"] is not None:
+        _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["kw_cfs"]["bins"])
+
+
 @implements(np.histogram_bin_edges)
 def histogram_bin_edges(  # noqa: ANN202
     a,  # noqa: ANN001
@@ -1310,13 +1328,12 @@ def histogram_bin_edges(  # noqa: ANN202
     helper_result = _prepare_array_func_args(a, bins=bins, range=range, weights=weights)
     if not isinstance(bins, str) and np.ndim(bins) == 1:
         # we got bin edges as input
+        _check_bins_cosmo_factor(helper_result)
         ret_cf = _preserve_cosmo_factor(helper_result["kw_cfs"]["bins"])
     else:
         # bins based on values in a
         ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
-        res = unyt_histogram_bin_edges(
-            *helper_result["args"], **helper_result["kwargs"]
-        )
+    res = unyt_histogram_bin_edges(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
 
@@ -1345,6 +1362,7 @@ def histogram(  # noqa: ANN202
     helper_result = _prepare_array_func_args(
         a, bins=bins, range=range, density=density, weights=weights
     )
+    _check_bins_cosmo_factor(helper_result)
     ret_cf_bins = _preserve_cosmo_factor(helper_result["cfs"][0])
     ret_cf_dens = _reciprocal_cosmo_factor(helper_result["cfs"][0])
     counts, bins = unyt_histogram(*helper_result["args"], **helper_result["kwargs"])
@@ -1388,6 +1406,8 @@ def histogram2d(  # noqa: ANN202
         xbins, ybins = bins
     helper_result_x = _prepare_array_func_args(x, bins=xbins, range=xrange)
     helper_result_y = _prepare_array_func_args(y, bins=ybins, range=yrange)
+    _check_bins_cosmo_factor(helper_result_x)
+    _check_bins_cosmo_factor(helper_result_y)
     if not density:
         helper_result_w = _prepare_array_func_args(weights=weights)
         ret_cf_x = _preserve_cosmo_factor(helper_result_x["cfs"][0])
@@ -1495,6 +1515,8 @@ def histogramdd(  # noqa: ANN202
         _prepare_array_func_args(s, bins=b, range=r)
         for s, b, r in zip(sample, bins, ranges)
     ]
+    for helper_result in helper_results:
+        _check_bins_cosmo_factor(helper_result)
     if not density:
         helper_result_w = _prepare_array_func_args(weights=weights)
         ret_cfs = [
-- 
2.43.0


From fe8b19a6cda2e83d3aaf626f7a532697089c80a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 11/63] fix: bins of a density histogram of mixed comoving and
 physical arrays

---
 swiftsimio/_array_functions.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index b7110d8..9f49135 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1470,6 +1470,8 @@ def histogram2d(  # noqa: ANN202
             density=density,
             weights=helper_result["kwargs"]["weights"],
         )
+        # the bins were computed from x and y coerced to a common state
+        helper_result_x = helper_result_y = helper_result
         ret_cf_xy = _multiply_cosmo_factor(
             helper_result["cfs"][0], helper_result["cfs"][1]
         )
@@ -1553,20 +1555,19 @@ def histogramdd(  # noqa: ANN202
         # now sample and weights must be compatible because they will combine
         # we unpack input to the helper to get everything checked for compatibility
         helper_result = _prepare_array_func_args(
-            *sample, bins=bins, range=range, weights=weights
+            *sample, *bins, *ranges, weights=weights
         )
-        ret_cfs = D * [_preserve_cosmo_factor(helper_result["cfs"][0])]
+        ret_cfs = helper_result["cfs"][:D]
         counts, bins = unyt_histogramdd(
-            helper_result["args"],
-            bins=helper_result["kwargs"]["bins"],
-            range=helper_result["kwargs"]["range"],
+            helper_result["args"][:D],
+            bins=helper_result["args"][D : 2 * D],
+            range=None if range is None else helper_result["args"][2 * D :],
             density=density,
             weights=helper_result["kwargs"]["weights"],
         )
-        if len(helper_result["cfs"]) == 1:
-            ret_cf_sample = _preserve_cosmo_factor(helper_result["cfs"][0])
-        else:
-            ret_cf_sample = _multiply_cosmo_factor(*helper_result["cfs"])
+        # the bins were computed from a sample coerced to a common state
+        helper_results = D * [helper_result]
+        ret_cf_sample = _multiply_cosmo_factor(*ret_cfs)
         if weights is not None:
             ret_cf_w = _preserve_cosmo_factor(helper_result["kw_cfs"]["weights"])
             inv_ret_cf_sample = _reciprocal_cosmo_factor(ret_cf_sample)
-- 
2.43.0


From afbe79e16bb2ac703f1f1aae4a3ab049e10e965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 12/63] fix: the variance has the squared cosmo_factor

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 9f49135..7fd0253 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1849,7 +1849,7 @@ def prod(  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf, out=out)
 
 
-implements(np.var)(_default_unary_wrapper(unyt_var, _preserve_cosmo_factor))
+implements(np.var)(_default_unary_wrapper(unyt_var, _square_cosmo_factor))
 implements(np.trace)(_default_unary_wrapper(unyt_trace, _preserve_cosmo_factor))
 implements(np.percentile)(
     _default_unary_wrapper(unyt_percentile, _preserve_cosmo_factor)
-- 
2.43.0


From 4e91520d5dc3f9339fd4e76b91b584dfb0c9b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 13/63] fix: np.choose and np.select combine the frames of the
 choices

---
 swiftsimio/_array_functions.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 7fd0253..0b45f0a 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1889,11 +1889,10 @@ def pad(array, pad_width, mode="constant", **kwargs):  # noqa numpydoc ignore=GL
 
 @implements(np.choose)
 def choose(a, choices, out=None, mode="raise"):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(a, choices, out=out, mode=mode)
     helper_result_choices = _prepare_array_func_args(*choices)
     ret_cf = _preserve_cosmo_factor(*helper_result_choices["cfs"])
-    res = unyt_choose(*helper_result["args"], **helper_result["kwargs"])
-    return _return_helper(res, helper_result, ret_cf, out=out)
+    res = unyt_choose(a, helper_result_choices["args"], out=out, mode=mode)
+    return _return_helper(res, helper_result_choices, ret_cf, out=out)
 
 
 @implements(np.insert)
@@ -2089,14 +2088,11 @@ implements(np.searchsorted)(
 
 @implements(np.select)
 def select(condlist, choicelist, default=0):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(condlist, choicelist, default=default)
-    helper_result_choicelist = _prepare_array_func_args(*choicelist)
-    ret_cf = _preserve_cosmo_factor(*helper_result_choicelist["cfs"])
-    res = unyt_select(
-        helper_result["args"][0],
-        helper_result_choicelist["args"],
-        **helper_result["kwargs"],
-    )
+    helper_result = _prepare_array_func_args(*choicelist, default=default)
+    ret_cf = _preserve_cosmo_factor(*helper_result["cfs"])
+    if helper_result["kw_cfs"]["default"] is not None:
+        _preserve_cosmo_factor(ret_cf, helper_result["kw_cfs"]["default"])
+    res = unyt_select(condlist, helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
 
-- 
2.43.0


From 07f10cbd743f0e09712b149f8a9e8a278f0eeb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 14/63] fix: np.clip ignored its min and max arguments

---
 swiftsimio/_array_functions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 0b45f0a..857e327 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2119,8 +2119,15 @@ def clip(  # noqa numpydoc ignore=GL08
     max=np._NoValue,  # noqa: ANN001
     **kwargs,  # noqa: ANN003
 ):
-    # can't work out how to properly handle min and max,
-    # just leave them in kwargs I guess (might be a numpy version conflict?)
+    # as in numpy, min and max are alternative names for a_min and a_max
+    if min is not np._NoValue or max is not np._NoValue:
+        if a_min is not np._NoValue or a_max is not np._NoValue:
+            raise ValueError(
+                "Passing `min` or `max` keyword argument when `a_min` and `a_max` are "
+                "provided is forbidden."
+            )
+        a_min = None if min is np._NoValue else min
+        a_max = None if max is np._NoValue else max
     helper_result = _prepare_array_func_args(
         a, a_min=a_min, a_max=a_max, out=out, **kwargs
     )
-- 
2.43.0


From 1b024294d3ed038772df6f2a8ad546d23349b223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 15/63] fix: np.einsum multiplies the cosmo_factors of its
 operands

---
 swiftsimio/_array_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 857e327..9311726 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2184,7 +2184,7 @@ def einsum(  # noqa numpydoc ignore=GL08
         optimize=optimize,
     )
     helper_result_operands = _prepare_array_func_args(*operands)
-    ret_cf = _preserve_cosmo_factor(*helper_result_operands["cfs"])
+    ret_cf = _multiply_cosmo_factor(*helper_result_operands["cfs"])
     res = unyt_einsum(
         helper_result["args"][0],
         *helper_result_operands["args"],
-- 
2.43.0


From 6420a50de762990953e255ae50e7d60fa0df7e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 16/63] fix: do not convert the source in place when copying
 values into an array

---
 swiftsimio/_array_functions.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 9311726..15ef0c9 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1817,9 +1817,9 @@ def copyto(dst, src, casting="same_kind", where=True):  # noqa numpydoc ignore=G
     if isinstance(src, objects.cosmo_array):
         comoving = getattr(dst, "comoving", None)
         if comoving:
-            src.convert_to_comoving()
+            src = src.to(comoving=True)
         elif comoving is False:
-            src.convert_to_physical()
+            src = src.to(comoving=False)
     unyt_copyto(dst, src, **helper_result["kwargs"])
 
 
@@ -2014,11 +2014,12 @@ def fill_diagonal(a, val, wrap=False):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(a, val, wrap=wrap)
     _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["cfs"][1])
     # must pass a directly here because it's modified in-place
-    comoving = getattr(a, "comoving", None)
-    if comoving:
-        val.convert_to_comoving()
-    elif comoving is False:
-        val.convert_to_physical()
+    if isinstance(val, objects.cosmo_array):
+        comoving = getattr(a, "comoving", None)
+        if comoving:
+            val = val.to(comoving=True)
+        elif comoving is False:
+            val = val.to(comoving=False)
     unyt_fill_diagonal(a, val, **helper_result["kwargs"])
 
 
@@ -2033,9 +2034,9 @@ def place(arr, mask, vals):  # noqa numpydoc ignore=GL08
     if isinstance(vals, objects.cosmo_array):
         comoving = getattr(arr, "comoving", None)
         if comoving:
-            vals.convert_to_comoving()
+            vals = vals.to(comoving=True)
         elif comoving is False:
-            vals.convert_to_physical()
+            vals = vals.to(comoving=False)
     unyt_place(arr, mask, vals)
 
 
@@ -2047,9 +2048,9 @@ def put(a, ind, v, mode="raise"):  # noqa numpydoc ignore=GL08
     if isinstance(v, objects.cosmo_array):
         comoving = getattr(a, "comoving", None)
         if comoving:
-            v.convert_to_comoving()
+            v = v.to(comoving=True)
         elif comoving is False:
-            v.convert_to_physical()
+            v = v.to(comoving=False)
     unyt_put(a, ind, v, **helper_result["kwargs"])
 
 
@@ -2061,9 +2062,9 @@ def put_along_axis(arr, indices, values, axis):  # noqa numpydoc ignore=GL08
     if isinstance(values, objects.cosmo_array):
         comoving = getattr(arr, "comoving", None)
         if comoving:
-            values.convert_to_comoving()
+            values = values.to(comoving=True)
         elif comoving is False:
-            values.convert_to_physical()
+            values = values.to(comoving=False)
     unyt_put_along_axis(arr, indices, values, axis)
 
 
@@ -2075,9 +2076,9 @@ def putmask(a, mask, values):  # noqa numpydoc ignore=GL08
     if isinstance(values, objects.cosmo_array):
         comoving = getattr(a, "comoving", None)
         if comoving:
-            values.convert_to_comoving()
+            values = values.to(comoving=True)
         elif comoving is False:
-            values.convert_to_physical()
+            values = values.to(comoving=False)
     unyt_putmask(a, mask, values)
 
 
-- 
2.43.0


From 102934639ca6d67f7cbcdcd3e753e783cf17e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 17/63] fix: np.average uses the arguments coerced to a common
 frame

---
 swiftsimio/_array_functions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 15ef0c9..54d9600 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2302,9 +2302,7 @@ def average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue)
     else:
         super_average = np.average._implementation
 
-    res = super_average(
-        a, axis=axis, weights=weights, returned=returned, keepdims=keepdims
-    )
+    res = super_average(*helper_result["args"], **helper_result["kwargs"])
     ret_cf_avg = _preserve_cosmo_factor(helper_result["cfs"][0])
     if returned:
         avg, wsum = res
-- 
2.43.0


From f5006cdc13e5c9775eff50f990b342d87fd5ee36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 18/63] fix: np.interp needs matching cosmo_factors of x and xp

---
 swiftsimio/_array_functions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 54d9600..0302c21 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2228,6 +2228,8 @@ def interp(x, xp, fp, left=None, right=None, period=None):  # noqa numpydoc igno
     helper_result = _prepare_array_func_args(
         x, xp, fp, left=left, right=right, period=period
     )
+    if all(cf is not None for cf in helper_result["cfs"][:2]):
+        _preserve_cosmo_factor(*helper_result["cfs"][:2])
     ret_cf = _preserve_cosmo_factor(helper_result["cfs"][2])
     res = unyt_interp(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
-- 
2.43.0


From 101e1ae97a85901d37d24534225d13bc6d639182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:41 +0000
Subject: [PATCH 19/63] fix: np.where with only a condition

---
 swiftsimio/_array_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 0302c21..8a68d71 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -2151,8 +2151,7 @@ def clip(  # noqa numpydoc ignore=GL08
 def where(condition, *args):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(condition, *args)
     if len(args) == 0:  # just condition
-        ret_cf = _return_without_cosmo_factor(helper_result["cfs"][0])
-        res = unyt_where(*helper_result["args"], **helper_result["kwargs"])
+        return unyt_where(*helper_result["args"], **helper_result["kwargs"])
     elif len(args) < 2:
         # error message borrowed from numpy 1.24.1
         raise ValueError("either both or neither of x and y should be given")
-- 
2.43.0


From 78b5ec536b37e40e91ff177106a1ec35b601d125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 20/63] fix: cosmo_factors of the quotient and remainder of
 divmod

---
 swiftsimio/_array_functions.py | 25 +++++++++++++++++++++++++
 swiftsimio/objects.py          | 23 ++++++++++++++---------
 2 files changed, 39 insertions(+), 9 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 8a68d71..b7b598c 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -598,6 +598,31 @@ def _divide_cosmo_factor(
     return _multiply_cosmo_factor(cf1, _reciprocal_cosmo_factor(cf2))
 
 
+def _divmod_cosmo_factor(
+    cf1: "objects.cosmo_factor", cf2: "objects.cosmo_factor", **kwargs: dict[str, Any]
+) -> "tuple[objects.cosmo_factor, objects.cosmo_factor]":
+    """
+    Get the :class:`~swiftsimio.objects.cosmo_factor`s of the results of ``divmod``.
+
+    Parameters
+    ----------
+    cf1 : swiftsimio.objects.cosmo_factor
+        :class:`~swiftsimio.objects.cosmo_factor` for the dividend.
+
+    cf2 : swiftsimio.objects.cosmo_factor
+        :class:`~swiftsimio.objects.cosmo_factor` for the divisor.
+
+    **kwargs : dict[str, Any]
+        Arbitrary kwargs.
+
+    Returns
+    -------
+    tuple[~swiftsimio.objects.cosmo_factor, ~swiftsimio.objects.cosmo_factor]
+        The :class:`~swiftsimio.objects.cosmo_factor`s of quotient and remainder.
+    """
+    return _divide_cosmo_factor(cf1, cf2), _preserve_cosmo_factor(cf1, cf2)
+
+
 def _reciprocal_cosmo_factor(
     cf: "objects.cosmo_factor", **kwargs: dict[str, Any]
 ) -> "objects.cosmo_factor":
diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 9e00608..efc5f99 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -113,6 +113,7 @@ from ._array_functions import (
     _square_cosmo_factor,
     _cbrt_cosmo_factor,
     _divide_cosmo_factor,
+    _divmod_cosmo_factor,
     _reciprocal_cosmo_factor,
     _passthrough_cosmo_factor,
     _return_without_cosmo_factor,
@@ -1061,7 +1062,7 @@ class cosmo_array(unyt_array):
         trunc: _passthrough_cosmo_factor,
         spacing: _passthrough_cosmo_factor,
         positive: _passthrough_cosmo_factor,
-        divmod_: _passthrough_cosmo_factor,
+        divmod_: _divmod_cosmo_factor,
         isnat: _return_without_cosmo_factor,
         heaviside: _preserve_cosmo_factor,
         _ones_like: _preserve_cosmo_factor,
@@ -2082,6 +2083,8 @@ class cosmo_array(unyt_array):
             ret_cf = _return_without_cosmo_factor(cfs[0])
         else:
             ret_cf = cls._cosmo_factor_ufunc_registry[ufunc](*cfs, inputs=inputs)
+        # the results of divmod have different cosmo_factors
+        ret_cfs = ret_cf if isinstance(ret_cf, tuple) else (ret_cf, ret_cf)
         # if we get a tuple we have multiple return values to deal with
         if isinstance(result, tuple):
             result = tuple(
@@ -2096,10 +2099,10 @@ class cosmo_array(unyt_array):
                 )
                 for r in result
             )
-            for r in result:
+            for r, r_cf in zip(result, ret_cfs):
                 if isinstance(r, cosmo_array):  # also recognizes cosmo_quantity
                     r.comoving = helper_result["comoving"]
-                    r.cosmo_factor = ret_cf
+                    r.cosmo_factor = r_cf
                     r.valid_transform = helper_result["valid_transform"]
                     r.compression = helper_result["compression"]
         elif isinstance(result, unyt_array):  # also recognizes cosmo_quantity
@@ -2141,10 +2144,10 @@ class cosmo_array(unyt_array):
                     )
                     for o in out
                 )
-                for o in out:
+                for o, o_cf in zip(out, ret_cfs):
                     if isinstance(o, cosmo_array):  # also recognizes cosmo_quantity
                         o.comoving = helper_result["comoving"]
-                        o.cosmo_factor = ret_cf
+                        o.cosmo_factor = o_cf
                         o.valid_transform = helper_result["valid_transform"]
                         o.compression = helper_result["compression"]
         return result
@@ -2207,16 +2210,18 @@ class cosmo_array(unyt_array):
             ret_cf = _return_without_cosmo_factor(cfs[0])
         else:
             ret_cf = self._cosmo_factor_ufunc_registry[ufunc](*cfs, inputs=inputs)
+        # the results of divmod have different cosmo_factors
+        ret_cfs = ret_cf if isinstance(ret_cf, tuple) else (ret_cf, ret_cf)
 
         result = _ensure_result_is_cosmo_array_or_quantity(super().__array_ufunc__)(
             ufunc, method, *helper_result["args"], **helper_result["kwargs"]
         )
         # if we get a tuple we have multiple return values to deal with
         if isinstance(result, tuple):
-            for r in result:
+            for r, r_cf in zip(result, ret_cfs):
                 if isinstance(r, cosmo_array):  # also recognizes cosmo_quantity
                     r.comoving = helper_result["comoving"]
-                    r.cosmo_factor = ret_cf
+                    r.cosmo_factor = r_cf
                     r.valid_transform = helper_result["valid_transform"]
                     r.compression = helper_result["compression"]
         elif isinstance(result, cosmo_array):  # also recognizes cosmo_quantity
@@ -2234,10 +2239,10 @@ class cosmo_array(unyt_array):
                     out.valid_transform = helper_result["valid_transform"]
                     out.compression = helper_result["compression"]
             else:
-                for o in out:
+                for o, o_cf in zip(out, ret_cfs):
                     if isinstance(o, cosmo_array):  # also recognizes cosmo_quantity
                         o.comoving = helper_result["comoving"]
-                        o.cosmo_factor = ret_cf
+                        o.cosmo_factor = o_cf
                         o.valid_transform = helper_result["valid_transform"]
                         o.compression = helper_result["compression"]
 
-- 
2.43.0


From e5acd4262cddb45a63655cb170896ed271eb444e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:50 +0000
Subject: [PATCH 21/63] fix: making a comoving or physical cosmo_array of
 another one left it corrupted

---
 swiftsimio/objects.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index efc5f99..2c398d1 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1193,10 +1193,9 @@ class cosmo_array(unyt_array):
                 # value across to avoid defaulting to None
                 obj.cosmo_factor = input_array.cosmo_factor
 
-            if comoving is True:
-                obj.convert_to_comoving()
-            elif comoving is False:
-                obj.convert_to_physical()
+            if comoving is not None and comoving is not obj.comoving:
+                # don't convert in place, obj shares its data with input_array
+                obj = obj.to(comoving=comoving)
             # else is already copied from input_array
 
             # only overwrite valid_transform after transforming so that invalid
-- 
2.43.0


From bbee1234c1c7fb46b1205fc49f0a280bd5c55682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:50 +0000
Subject: [PATCH 22/63] fix: convert a list of cosmo quantities to the
 requested frame

---
 swiftsimio/objects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 2c398d1..b9327d6 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1231,6 +1231,12 @@ class cosmo_array(unyt_array):
             )
 
             input_array = helper_result["args"]
+            if comoving is not None and helper_result["comoving"] is (not comoving):
+                # all of the inputs are in the other frame
+                input_array = [
+                    arg.to(comoving=comoving) if isinstance(arg, cosmo_array) else arg
+                    for arg in input_array
+                ]
 
             # default to comoving, cosmo_factor and compression given as kwargs
             comoving = helper_result["comoving"] if comoving is None else comoving
-- 
2.43.0


From 22bea22678005563a30a659caafbaff06cc5d696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:50 +0000
Subject: [PATCH 23/63] fix: from_astropy and from_pint ignored valid_transform

---
 swiftsimio/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index b9327d6..df53165 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1918,7 +1918,7 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform
 
         return obj
 
@@ -1980,7 +1980,7 @@ class cosmo_array(unyt_array):
         obj.comoving = comoving
         obj.cosmo_factor = cosmo_factor
         obj.compression = compression
-        obj.valid_trasform = valid_transform
+        obj.valid_transform = valid_transform
 
         return obj
 
-- 
2.43.0


From ff8d07e3281a2b071d5c80eafe7c6a997f874cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 24/63] fix: small cosmo_factors of different size compared
 equal

---
 swiftsimio/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index df53165..7af7673 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -791,7 +791,7 @@ class cosmo_factor(object):
         elif self.a_factor is None or b.a_factor is None:
             # we know they're not both None from previous case
             a_factor_match = False
-        elif np.isclose(self.a_factor, b.a_factor, rtol=1e-6):
+        elif np.isclose(self.a_factor, b.a_factor, rtol=1e-6, atol=0.0):
             a_factor_match = True
         else:
             a_factor_match = False
-- 
2.43.0


From 6bea6956242dd42abf68c95d6d45e66271d720a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 25/63] fix: a frame conversion that is not permitted leaves
 the units alone

---
 swiftsimio/objects.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 7af7673..205816d 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1449,12 +1449,12 @@ class cosmo_array(unyt_array):
             If the provided ``units`` does not have the same dimensions as the array and
             cannot be converted via a provided ``equivalence``.
         """
+        if not self.comoving and (not self.valid_transform or self.comoving is None):
+            raise InvalidConversionError
         if units is not None:
             self.convert_to_units(units, equivalence=equivalence, **kwargs)
         if self.comoving:
             return
-        if not self.valid_transform or self.comoving is None:
-            raise InvalidConversionError
         # Best to just modify values as otherwise we're just going to have
         # to do a convert_to_units anyway.
         values = self.d
@@ -1497,11 +1497,11 @@ class cosmo_array(unyt_array):
             If the provided ``units`` does not have the same dimensions as the array and
             cannot be converted via a provided ``equivalence``.
         """
-        if units is not None:
-            self.convert_to_units(units, equivalence=equivalence, **kwargs)
         if self.comoving is None:
             raise InvalidConversionError
-        elif not self.comoving:
+        if units is not None:
+            self.convert_to_units(units, equivalence=equivalence, **kwargs)
+        if not self.comoving:
             return
         else:  # self.comoving
             # Best to just modify values as otherwise we're just going to have
-- 
2.43.0


From 7df32948a058b77efbfeb2c0f00ef148d1443906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 26/63] fix: cosmo_array with bypass_validation and a scale
 factor raised AttributeError

---
 swiftsimio/objects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 205816d..49ac58a 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1156,9 +1156,11 @@ class cosmo_array(unyt_array):
 
             # dtype, units, registry & name are handled by unyt
             obj.comoving = comoving
-            obj.cosmo_factor = cosmo_factor if cosmo_factor is not None else NULL_CF
             if scale_factor is not None:  # ambiguity, but this is `bypass_validation`
-                obj.cosmo_factor = cosmo_factor.create(scale_factor, scale_exponent)
+                cosmo_factor = _parse_cosmo_factor_args(
+                    scale_factor=scale_factor, scale_exponent=scale_exponent
+                )
+            obj.cosmo_factor = cosmo_factor if cosmo_factor is not None else NULL_CF
             obj.valid_transform = valid_transform
             obj.compression = compression
 
-- 
2.43.0


From 56e8e3a4d115959fb6989a0a280ffa625a2ae343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:19 +0000
Subject: [PATCH 27/63] fix: squeeze to a scalar lost the cosmo_array
 attributes

---
 swiftsimio/objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 49ac58a..d9be0fa 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1408,7 +1408,9 @@ class cosmo_array(unyt_array):
         _ensure_result_is_cosmo_array_or_quantity(unyt_array.__getitem__)
     )
     dot = _default_binary_wrapper(unyt_array.dot, _multiply_cosmo_factor)
-    squeeze = _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    squeeze = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
+    )
 
     # Also wrap some array "properties":
     T = property(_propagate_cosmo_array_attributes_to_result(unyt_array.transpose))
-- 
2.43.0


From a519ee3cd65b13962dc3b8c4ebd0d7969506c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:19 +0000
Subject: [PATCH 28/63] fix: flatten, ravel and repeat of a cosmo_quantity give
 a cosmo_array

---
 swiftsimio/objects.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index d9be0fa..7f54e16 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1387,9 +1387,15 @@ class cosmo_array(unyt_array):
     byteswap = _propagate_cosmo_array_attributes_to_result(unyt_array.byteswap)
     compress = _propagate_cosmo_array_attributes_to_result(unyt_array.compress)
     diagonal = _propagate_cosmo_array_attributes_to_result(unyt_array.diagonal)
-    flatten = _propagate_cosmo_array_attributes_to_result(unyt_array.flatten)
-    ravel = _propagate_cosmo_array_attributes_to_result(unyt_array.ravel)
-    repeat = _propagate_cosmo_array_attributes_to_result(unyt_array.repeat)
+    flatten = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.flatten)
+    )
+    ravel = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.ravel)
+    )
+    repeat = _propagate_cosmo_array_attributes_to_result(
+        _ensure_result_is_cosmo_array_or_quantity(unyt_array.repeat)
+    )
     swapaxes = _propagate_cosmo_array_attributes_to_result(unyt_array.swapaxes)
     transpose = _propagate_cosmo_array_attributes_to_result(unyt_array.transpose)
     view = _propagate_cosmo_array_attributes_to_result(unyt_array.view)
-- 
2.43.0


From 9bc5392b13a69b72932c1c5a8f16eabdb701d3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:29 +0000
Subject: [PATCH 29/63] fix: unary plus lost valid_transform, or raised without
 a frame

---
 swiftsimio/objects.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 7f54e16..82da0ae 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2328,6 +2328,17 @@ class cosmo_array(unyt_array):
             function_to_invoke = func._implementation
         return function_to_invoke(*args, **kwargs)
 
+    def __pos__(self) -> "cosmo_array":
+        """
+        Get a copy of the array, with its attributes.
+
+        Returns
+        -------
+        cosmo_array
+            The copy of the array.
+        """
+        return positive(self)
+
     def __mul__(
         self, b: int | float | np.ndarray | unyt.unit_object.Unit
     ) -> "cosmo_array":
-- 
2.43.0


From db53bd23a7a85eff055cb7c75d6c74260131f10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 30/63] fix: slices and volume renders missed the last row of
 pixels inside the kernel support

---
 swiftsimio/visualisation/slice_backends/sph.py     |  7 +++++--
 .../volume_render_backends/scatter.py              | 14 ++++++++------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/swiftsimio/visualisation/slice_backends/sph.py b/swiftsimio/visualisation/slice_backends/sph.py
index 6cc4704..66f1057 100644
--- a/swiftsimio/visualisation/slice_backends/sph.py
+++ b/swiftsimio/visualisation/slice_backends/sph.py
@@ -197,7 +197,9 @@ def slice_scatter(
                         max(0, particle_cell_x - cells_spanned),
                         # Ensure that the highest x value lies within the array bounds,
                         # otherwise we'll segfault (oops).
-                        min(particle_cell_x + cells_spanned, maximal_array_index + 1),
+                        min(
+                            particle_cell_x + cells_spanned + 1, maximal_array_index + 1
+                        ),
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -209,7 +211,8 @@ def slice_scatter(
                         for cell_y in range(
                             max(0, particle_cell_y - cells_spanned),
                             min(
-                                particle_cell_y + cells_spanned, maximal_array_index + 1
+                                particle_cell_y + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             distance_y = (
diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index c7fa88d..1e5d795 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -175,7 +175,8 @@ def scatter(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -188,7 +189,7 @@ def scatter(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -199,7 +200,7 @@ def scatter(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned),
                                     min(
-                                        particle_cell_z + cells_spanned,
+                                        particle_cell_z + cells_spanned + 1,
                                         maximal_array_index + 1,
                                     ),
                                 ):
@@ -401,7 +402,8 @@ def scatter_limited_z(
                             # Ensure that the highest x value lies within the np.array
                             # bounds, otherwise we'll segfault (oops).
                             min(
-                                particle_cell_x + cells_spanned, maximal_array_index + 1
+                                particle_cell_x + cells_spanned + 1,
+                                maximal_array_index + 1,
                             ),
                         ):
                             # The distance in x to our new favourite cell -- remember that
@@ -414,7 +416,7 @@ def scatter_limited_z(
                             for cell_y in range(
                                 max(0, particle_cell_y - cells_spanned),
                                 min(
-                                    particle_cell_y + cells_spanned,
+                                    particle_cell_y + cells_spanned + 1,
                                     maximal_array_index + 1,
                                 ),
                             ):
@@ -425,7 +427,7 @@ def scatter_limited_z(
                                 for cell_z in range(
                                     max(0, particle_cell_z - cells_spanned_z),
                                     min(
-                                        particle_cell_z + cells_spanned_z,
+                                        particle_cell_z + cells_spanned_z + 1,
                                         maximal_array_index_z + 1,
                                     ),
                                 ):
-- 
2.43.0


From a81fddaf24710c726180a8dcaf9dd9f8cdcbf565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 31/63] fix: volume renders of reduced depth resolution missed
 periodic images of small boxes

---
 swiftsimio/visualisation/volume_render_backends/scatter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index 1e5d795..801422c 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -329,19 +329,19 @@ def scatter_limited_z(
         xshift_max = 1
     else:
         xshift_min = -1
-        xshift_max = 2
+        xshift_max = int(np.ceil(1 / box_x) + 1)
     if box_y == 0.0:
         yshift_min = 0
         yshift_max = 1
     else:
         yshift_min = -1
-        yshift_max = 2
+        yshift_max = int(np.ceil(1 / box_y) + 1)
     if box_z == 0.0:
         zshift_min = 0
         zshift_max = 1
     else:
         zshift_min = -1
-        zshift_max = 2
+        zshift_max = int(np.ceil(1 / box_z) + 1)
 
     for x_pos_original, y_pos_original, z_pos_original, mass, hsml in zip(
         x, y, z, m, h
-- 
2.43.0


From b0e36ccf2cc5e078cd933cfb5ec6084756255fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 32/63] fix: shape of the parallel volume render of reduced
 depth resolution

---
 swiftsimio/visualisation/volume_render_backends/scatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/volume_render_backends/scatter.py b/swiftsimio/visualisation/volume_render_backends/scatter.py
index 801422c..cc2fe33 100644
--- a/swiftsimio/visualisation/volume_render_backends/scatter.py
+++ b/swiftsimio/visualisation/volume_render_backends/scatter.py
@@ -531,7 +531,7 @@ def scatter_parallel(
     number_of_particles = x.size
     core_particles = number_of_particles // NUM_THREADS
 
-    output = np.zeros((res, res, res), dtype=np.float32)
+    output = np.zeros((res, res, res // res_ratio_z), dtype=np.float32)
 
     for thread in prange(NUM_THREADS):
         # Left edge is easy, just start at 0 and go to 'final'
-- 
2.43.0


From ffca05a63bb18ecb81a7d2c8adf286795ae452fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 33/63] fix: subsampled projections missed overlaps of small
 kernels with the next pixel

---
 swiftsimio/visualisation/projection_backends/subsampled.py    | 4 ++--
 .../visualisation/projection_backends/subsampled_extreme.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/subsampled.py b/swiftsimio/visualisation/projection_backends/subsampled.py
index 8285e6b..5a3625a 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled.py
@@ -179,9 +179,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
diff --git a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
index f69f13b..74f3538 100644
--- a/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
+++ b/swiftsimio/visualisation/projection_backends/subsampled_extreme.py
@@ -180,9 +180,9 @@ def scatter(
                     # If they exist, we must use the sub-sampled kernel.
 
                     dx_left = x_pos - np.float64(particle_cell_x) / float_res
-                    dx_right = 1.0 - dx_left
+                    dx_right = pixel_width - dx_left
                     dy_down = y_pos - np.float64(particle_cell_y) / float_res
-                    dy_up = 1.0 - dy_down
+                    dy_up = pixel_width - dy_down
 
                     overlaps_left = dx_left < kernel_width
                     overlaps_right = dx_right < kernel_width
-- 
2.43.0


From 5c1ab0ae50db0b0204542aa44a25d602d2741f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 34/63] fix: renormalised projections normalise over all the
 pixels they deposit in

---
 .../visualisation/projection_backends/renormalised.py     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/projection_backends/renormalised.py b/swiftsimio/visualisation/projection_backends/renormalised.py
index 25af4bc..2c68e5c 100644
--- a/swiftsimio/visualisation/projection_backends/renormalised.py
+++ b/swiftsimio/visualisation/projection_backends/renormalised.py
@@ -151,8 +151,8 @@ def scatter(
                     normalisation = np.float32(0.0)
 
                     for cell_x in range(
-                        particle_cell_x - cells_spanned + 1,
-                        particle_cell_x + cells_spanned,
+                        particle_cell_x - cells_spanned,
+                        particle_cell_x + cells_spanned + 1,
                     ):
                         # The distance in x to our new favourite cell -- remember that our
                         # x, y are all in a box of [0, 1]; calculate the distance to the
@@ -162,8 +162,8 @@ def scatter(
                         ) * pixel_width - np.float32(x_pos)
                         distance_x_2 = distance_x * distance_x
                         for cell_y in range(
-                            particle_cell_y - cells_spanned + 1,
-                            particle_cell_y + cells_spanned,
+                            particle_cell_y - cells_spanned,
+                            particle_cell_y + cells_spanned + 1,
                         ):
                             distance_y = (
                                 np.float32(cell_y) + 0.5
-- 
2.43.0


From aeab1ac78b805b084558ad767e74692359e5cc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 35/63] fix: power spectrum deposit wrote out of bounds when
 rounding to the box edge

---
 swiftsimio/visualisation/power_spectrum.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 3460b7c..6766228 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -89,10 +89,10 @@ def deposit(
         y_pos_scaled = (y_pos % box_over_fold_y) * inv_box_over_fold_y
         z_pos_scaled = (z_pos % box_over_fold_z) * inv_box_over_fold_z
 
-        # Convert to grid position
-        x_pix = np.int32(x_pos_scaled * float_res)
-        y_pix = np.int32(y_pos_scaled * float_res)
-        z_pix = np.int32(z_pos_scaled * float_res)
+        # Convert to grid position (rounding can put a particle on the upper edge)
+        x_pix = np.int32(x_pos_scaled * float_res) % res
+        y_pix = np.int32(y_pos_scaled * float_res) % res
+        z_pix = np.int32(z_pos_scaled * float_res) % res
 
         # Deposit the mass
         output[x_pix, y_pix, z_pix] += mass * inv_volume_element
-- 
2.43.0


From 1337f72f8b9d5abb7de460a684a6f53a0f2401a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 36/63] fix: power spectrum deposit of physical coordinates
 used the comoving box

---
 swiftsimio/visualisation/power_spectrum.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 6766228..24794a1 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -236,7 +236,7 @@ def render_to_deposit(
             )
 
     # Get the box size
-    boxsize = data.metadata.boxsize
+    boxsize = data.metadata.boxsize.to(comoving=positions.comoving)
 
     if not boxsize.units == positions.units:
         raise AttributeError("Box size and positions have different units!")
@@ -262,10 +262,8 @@ def render_to_deposit(
     comoving = positions.comoving
     coord_cosmo_factor = positions.cosmo_factor
 
-    units = 1.0 / (
-        data.metadata.boxsize[0] * data.metadata.boxsize[1] * data.metadata.boxsize[2]
-    )
-    units.convert_to_units(1.0 / data.metadata.boxsize.units**3)
+    units = 1.0 / (boxsize[0] * boxsize[1] * boxsize[2])
+    units.convert_to_units(1.0 / boxsize.units**3)
 
     units *= quantity.units
     new_cosmo_factor = quantity.cosmo_factor / (coord_cosmo_factor**3)
-- 
2.43.0


From 149a6f6339cbd79a463bebde77e91ed349e89b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 37/63] fix: periodic visualisation wrapped the coordinates of
 the dataset in place

---
 swiftsimio/visualisation/_vistools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/_vistools.py b/swiftsimio/visualisation/_vistools.py
index fe4a6ff..bbb5d9a 100644
--- a/swiftsimio/visualisation/_vistools.py
+++ b/swiftsimio/visualisation/_vistools.py
@@ -168,7 +168,8 @@ def _get_rotated_and_wrapped_coordinates(
     else:
         coords = data.coordinates
     if periodic:
-        coords %= data.metadata.boxsize.to(comoving=coords.comoving)
+        # not in place: these can be the coordinates of the dataset
+        coords = coords % data.metadata.boxsize.to(comoving=coords.comoving)
     return coords.T
 
 
-- 
2.43.0


From ff51051d4f680571cd23315f31e28c710b654d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:41 +0000
Subject: [PATCH 38/63] fix: rotation matrix of a vector along or opposite to
 the axis was a reflection

---
 swiftsimio/visualisation/rotation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/swiftsimio/visualisation/rotation.py b/swiftsimio/visualisation/rotation.py
index b655945..d79e554 100644
--- a/swiftsimio/visualisation/rotation.py
+++ b/swiftsimio/visualisation/rotation.py
@@ -45,16 +45,18 @@ def rotation_matrix_from_vector(vector: np.float64, axis: str = "z") -> np.ndarr
 
     cross_product = np.cross(original_direction, normed_vector)
     mod_cross_product = np.linalg.norm(cross_product)
-    cross_product = cross_product / mod_cross_product
 
     if mod_cross_product <= 1e-6:
-        # This case only covers when we point the vector
-        # in the exact opposite direction (e.g. flip z).
+        # The vector already points along the axis, or in the exact opposite
+        # direction: then turn by half a circle about another axis.
         output = np.identity(3)
-        output[switch[axis], switch[axis]] = -1.0
+        if np.dot(original_direction, normed_vector) < 0:
+            output[switch[axis], switch[axis]] = -1.0
+            output[switch[axis] - 1, switch[axis] - 1] = -1.0
 
         return output
     else:
+        cross_product = cross_product / mod_cross_product
         cos_theta = np.dot(original_direction, normed_vector)
         sin_theta = np.sin(np.arccos(cos_theta))
 
-- 
2.43.0


From 558b4e986130e5f917cbc09b2a9ff626d7cfd255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:49 +0000
Subject: [PATCH 39/63] fix: surface density of projections of regions that are
 not square

---
 swiftsimio/visualisation/projection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/projection.py b/swiftsimio/visualisation/projection.py
index 90a3650..a9227f9 100644
--- a/swiftsimio/visualisation/projection.py
+++ b/swiftsimio/visualisation/projection.py
@@ -146,7 +146,7 @@ def project_pixel_grid(
         box_x=region_info["periodic_box_x"],
         box_y=region_info["periodic_box_y"],
     )
-    norm = region_info["x_range"] * region_info["y_range"]
+    norm = region_info["max_range"] ** 2
     backend_func = (backends_parallel if parallel else backends)[backend]
     image = backend_strip_and_restore_cosmo_and_units(backend_func, norm=norm)(**kwargs)
 
-- 
2.43.0


From 69f09bdb1615044d76f6dfa285a04bd420f1aefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:11 +0000
Subject: [PATCH 40/63] fix: projections of the full depth of the box could
 select the wrong particles

---
 swiftsimio/visualisation/projection.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/swiftsimio/visualisation/projection.py b/swiftsimio/visualisation/projection.py
index a9227f9..6e3f4b9 100644
--- a/swiftsimio/visualisation/projection.py
+++ b/swiftsimio/visualisation/projection.py
@@ -113,18 +113,10 @@ def project_pixel_grid(
                 raise ValueError(
                     "Projection depth of more than the box depth is not supported."
                 )
-            if (region_info["z_max"] % data.metadata.boxsize[2]) <= (
-                region_info["z_min"] % data.metadata.boxsize[2]
-            ):
-                z_mask = np.logical_or(
-                    z <= region_info["z_max"] % data.metadata.boxsize[2],
-                    z >= region_info["z_min"] % data.metadata.boxsize[2],
-                )
-            else:
-                z_mask = np.logical_and(
-                    z <= region_info["z_max"] % data.metadata.boxsize[2],
-                    z >= region_info["z_min"] % data.metadata.boxsize[2],
-                )
+            # distance above the lower edge of the region, through the periodic box
+            z_mask = (z - region_info["z_min"]) % data.metadata.boxsize[
+                2
+            ] <= region_info["z_range"]
         else:
             z_mask = np.logical_and(
                 z <= region_info["z_max"], z >= region_info["z_min"]
-- 
2.43.0


From 980df174df1eeb5dc9070e5f729787a0be6a5467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:11 +0000
Subject: [PATCH 41/63] fix: smoothing lengths from a single neighbour

---
 swiftsimio/visualisation/smoothing_length/generate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index 375709c..b63e246 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -96,7 +96,7 @@ def generate_smoothing_lengths(
         try:
             d, _ = tree.query(
                 coordinates[starting_index:ending_index].to_value(coordinates.units),
-                k=neighbours_search,
+                k=[neighbours_search],  # only the furthest, always 2D
                 workers=-1,
             )
         except TypeError:
@@ -104,7 +104,7 @@ def generate_smoothing_lengths(
             # scipy.
             d, _ = tree.query(
                 coordinates[starting_index:ending_index].to_value(coordinates.units),
-                k=neighbours_search,
+                k=[neighbours_search],  # only the furthest, always 2D
                 n_jobs=-1,
             )
 
-- 
2.43.0


From c45f4e602d53dd11ecc4108f3b03c360b4f6270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:50 +0000
Subject: [PATCH 42/63] fix: smoothing lengths of physical coordinates used the
 comoving box

---
 swiftsimio/visualisation/smoothing_length/generate.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swiftsimio/visualisation/smoothing_length/generate.py b/swiftsimio/visualisation/smoothing_length/generate.py
index b63e246..cd5e58b 100644
--- a/swiftsimio/visualisation/smoothing_length/generate.py
+++ b/swiftsimio/visualisation/smoothing_length/generate.py
@@ -61,6 +61,10 @@ def generate_smoothing_lengths(
 
     number_of_parts = coordinates.shape[0]
 
+    if isinstance(boxsize, cosmo_array):
+        # the box in which the coordinates are periodic
+        boxsize = boxsize.to(comoving=getattr(coordinates, "comoving", None))
+
     tree = KDTree(
         coordinates.to_value(coordinates.units),
         boxsize=boxsize.to_value(coordinates.units),
-- 
2.43.0


From 78cb0a53d60889f86bcc903ffda1f65a5479a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:34 +0000
Subject: [PATCH 43/63] fix: closing an owned handle that was never opened is a
 no-op

---
 swiftsimio/_handle_provider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/_handle_provider.py b/swiftsimio/_handle_provider.py
index 6610e9d..5fecac0 100644
--- a/swiftsimio/_handle_provider.py
+++ b/swiftsimio/_handle_provider.py
@@ -58,7 +58,7 @@ class HandleProvider:
 
     def _close_handle_if_manager(self) -> None:
         """Close the file handle if this object is the manager of the handle."""
-        if self.handle_manager:
+        if self.handle_manager and self._handle:
             self._handle.close()
 
     @contextmanager
-- 
2.43.0


From 74922303e111cbcfa91e50665860e3c5912316c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:34 +0000
Subject: [PATCH 44/63] fix: SWIFTDataset.get_units, get_metadata and
 create_datasets work again after load() closed its file

---
 swiftsimio/reader.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/swiftsimio/reader.py b/swiftsimio/reader.py
index 07941a5..09436b5 100644
--- a/swiftsimio/reader.py
+++ b/swiftsimio/reader.py
@@ -758,7 +758,8 @@ class SWIFTDataset(HandleProvider):
             ), f"Mask is for {self.mask.filename} but dataset is for {self.filename}."
             self.units = self.mask.units
         else:
-            self.units = SWIFTUnits(self.filename, handle=self.handle)
+            with self.open_file() as handle:
+                self.units = SWIFTUnits(self.filename, handle=handle)
 
         return
 
@@ -776,9 +777,10 @@ class SWIFTDataset(HandleProvider):
             ), f"Mask is for {self.mask.filename} but dataset is for {self.filename}."
             self.metadata = self.mask.metadata
         else:
-            self.metadata = _metadata_discriminator(
-                self.filename, self.units, handle=self.handle
-            )
+            with self.open_file() as handle:
+                self.metadata = _metadata_discriminator(
+                    self.filename, self.units, handle=handle
+                )
 
         return
 
@@ -793,16 +795,17 @@ class SWIFTDataset(HandleProvider):
         if not hasattr(self, "metadata"):
             self.get_metadata()
 
-        for group_name in self.metadata.present_group_names:
-            setattr(
-                self,
-                group_name,
-                _generate_datasets(
-                    self.filename,
-                    getattr(self.metadata, f"{group_name}_properties"),
-                    self.mask,
-                    handle=self.handle,
-                ),
-            )
+        with self.open_file() as handle:
+            for group_name in self.metadata.present_group_names:
+                setattr(
+                    self,
+                    group_name,
+                    _generate_datasets(
+                        self.filename,
+                        getattr(self.metadata, f"{group_name}_properties"),
+                        self.mask,
+                        handle=handle,
+                    ),
+                )
 
         return
-- 
2.43.0


From 46940c6a874ffbca593565d8314cd163f1af54e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 45/63] fix: write an a-scale exponent of 0 for fields without
 scale-factor dependence

---
 swiftsimio/snapshot_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 0ddebb0..b8368cc 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -11,7 +11,7 @@ from functools import reduce
 
 from swiftsimio import metadata
 from swiftsimio.metadata.writer.unit_systems import cosmo_units
-from swiftsimio.objects import cosmo_array
+from swiftsimio.objects import a, cosmo_array
 
 
 def _ptype_str_to_int(ptype_str: str) -> int:
@@ -272,7 +272,7 @@ class __SWIFTWriterParticleDataset(object):
                 "U_T exponent": [dim_exponents[temperature]],
                 "U_t exponent": [dim_exponents[time]],
                 "a-scale exponent": [
-                    float(getattr(field.cosmo_factor.expr, "exp", 1.0))
+                    float(field.cosmo_factor.expr.as_powers_dict()[a])
                 ],
                 "h-scale exponent": [0.0],
             }
-- 
2.43.0


From 93508c6980a5be509c70a76b734861c72fe125c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 46/63] fix: write the box size in comoving units when it is
 given in physical ones

---
 swiftsimio/snapshot_writer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index b8368cc..1919360 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -684,6 +684,8 @@ class SWIFTSnapshotWriter(object):
             )
         self.boxsize = np.copy(boxsize, subok=True)
         self.boxsize.convert_to_base(self.unit_system)
+        if getattr(self.boxsize, "comoving", None) is False:
+            self.boxsize.convert_to_comoving()
 
         self.dimension = dimension
         self.compress = compress
-- 
2.43.0


From babfa985270963220d9ea06c7359778717628878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 47/63] fix: writing a particle type with zero particles no
 longer leaves a truncated file

---
 swiftsimio/snapshot_writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 1919360..6684b27 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -773,7 +773,10 @@ class SWIFTSnapshotWriter(object):
                 number_of_particles[_ptype_str_to_int(number)] = getattr(
                     self, name
                 ).n_part
-                mass_table[_ptype_str_to_int(number)] = getattr(self, name).masses[0]
+                if getattr(self, name).n_part > 0:
+                    mass_table[_ptype_str_to_int(number)] = getattr(self, name).masses[
+                        0
+                    ]
 
         attrs = {
             "BoxSize": self.boxsize,
-- 
2.43.0


From 14a6e1618586e9c166f72de9762625c294901273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:13 +0000
Subject: [PATCH 48/63] fix: reject dimensionful arrays for dimensionless
 fields of the snapshot writer

---
 swiftsimio/snapshot_writer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swiftsimio/snapshot_writer.py b/swiftsimio/snapshot_writer.py
index 6684b27..7c44b10 100644
--- a/swiftsimio/snapshot_writer.py
+++ b/swiftsimio/snapshot_writer.py
@@ -411,6 +411,10 @@ def generate_setter(
             else:
                 raise TypeError(f"Provide {name} as swiftsimio.cosmo_array.")
         else:
+            if getattr(value, "units", unyt.dimensionless).dimensions != dimensions:
+                raise unyt.exceptions.InvalidUnitEquivalence(
+                    f"Convert to {name}", value.units.dimensions, dimensions
+                )
             if name == "particle_ids":
                 if any(value <= 0):
                     raise ValueError(f"{self.particle_name}.particle_ids must be >= 1.")
-- 
2.43.0


From 095aa533ec3af768256b578af8213d84d8ee00c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 49/63] fix: parse every value of a statistics column, not just
 the first, to choose its type

---
 swiftsimio/accelerated.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/swiftsimio/accelerated.py b/swiftsimio/accelerated.py
index 31e6a6e..333d280 100644
--- a/swiftsimio/accelerated.py
+++ b/swiftsimio/accelerated.py
@@ -557,24 +557,18 @@ def list_of_strings_to_arrays(lines: list[str]) -> np.array:
     -----
     Currently not suitable for :mod:`numba` acceleration due to mixed datatype usage.
     """
-    # Calculate types and set up arrays.
+    rows = [line.split() for line in lines if line.strip()]
+    number_of_columns = len(rows[0]) if rows else 0
 
     arrays = []
-    dtypes = []
-    number_of_lines = len(lines)
 
-    for item in lines[0].split():
-        if "." in item or "e" in item:
-            dtype = np.float64
-        else:
-            dtype = np.int64
-
-        dtypes.append(dtype)
-
-        arrays.append(np.zeros(number_of_lines, dtype=dtype))
-
-    for index, line in enumerate(lines):
-        for dtype, (array, value) in zip(dtypes, enumerate(line.split())):
-            arrays[array][index] = dtype(value)
+    for column in range(number_of_columns):
+        values = [row[column] if column < len(row) else "0" for row in rows]
+        # A column is integer only if all of its values are.
+        try:
+            array = np.array([int(value) for value in values], dtype=np.int64)
+        except (ValueError, OverflowError):
+            array = np.array([float(value) for value in values], dtype=np.float64)
+        arrays.append(array)
 
     return arrays
-- 
2.43.0


From 03f3ae004517a6f9c93459180612d2b1f83f50f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 50/63] fix: read statistics files that have no data lines yet

---
 swiftsimio/statistics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/statistics.py b/swiftsimio/statistics.py
index 8ba615c..978bd61 100644
--- a/swiftsimio/statistics.py
+++ b/swiftsimio/statistics.py
@@ -50,7 +50,7 @@ class SWIFTStatisticsFile(object):
         regex_name = re.compile(r"# \(([0-9]*)\) +([^\.\n]*)")
         regex_unit = re.compile(r"# *Unit = ([^\s]+) ?(.*)")
 
-        while lines[current_line].startswith("#"):
+        while current_line < len(lines) and lines[current_line].startswith("#"):
             # Regex match each line to see if it is a unit
             # or a name
 
@@ -96,6 +96,9 @@ class SWIFTStatisticsFile(object):
     def _process_raw_lines(self) -> None:
         """Process the raw string lines read out of the header."""
         arrays = list_of_strings_to_arrays(lines=self.raw_lines)
+        if len(arrays) == 0:
+            # There is only a header, so all columns are empty.
+            arrays = [[] for _ in self.header_names]
 
         for array, header_name, header_snake_case_name in zip(
             arrays, self.header_names, self.header_snake_case_names
-- 
2.43.0


From aba54d9f5ebd934d9308b8745ba9a50627de85fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 51/63] fix: rotation matrices of single-precision, very long
 and very short vectors

---
 swiftsimio/visualisation/rotation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/swiftsimio/visualisation/rotation.py b/swiftsimio/visualisation/rotation.py
index d79e554..99cab4d 100644
--- a/swiftsimio/visualisation/rotation.py
+++ b/swiftsimio/visualisation/rotation.py
@@ -28,6 +28,10 @@ def rotation_matrix_from_vector(vector: np.float64, axis: str = "z") -> np.ndarr
     np.ndarray[float64]
         Rotation matrix (3x3).
     """
+    # Single precision loses the direction of vectors close to the axis, and the norm of
+    # very long or short vectors over- or underflows unless they are rescaled first.
+    vector = np.asanyarray(vector, dtype=np.float64)
+    vector = vector / np.max(np.abs(vector))
     normed_vector = vector / np.linalg.norm(vector)
     if isinstance(normed_vector, u.unyt_array):
         normed_vector = normed_vector.to_value(u.dimensionless)
-- 
2.43.0


From 682880528bd4cad1e62a0e7736042b1b12bd0b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 52/63] fix: output arrays in another frame than the operands

---
 swiftsimio/_array_functions.py | 43 ++++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index b7b598c..5e610b8 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -13,6 +13,7 @@ are documented to assist in maintenance and development of swiftsimio.
 
 import warnings
 from functools import reduce
+from inspect import signature
 import numpy as np
 from typing import Callable, Any
 import unyt
@@ -922,6 +923,9 @@ def _prepare_array_func_args(
     ValueError
         If the input arrays cannot be coerced to a consistent state of ``comoving``.
     """
+    # an output array is going to be overwritten: what it currently holds does not matter,
+    # and a converted copy of it must not be written to instead
+    out = {"out": kwargs.pop("out")} if "out" in kwargs else {}
     cms = [(hasattr(arg, "comoving"), getattr(arg, "comoving", None)) for arg in args]
     cfs = [getattr(arg, "cosmo_factor", None) for arg in args]
     vts = [getattr(arg, "valid_transform", True) for arg in args]
@@ -993,7 +997,7 @@ def _prepare_array_func_args(
         ret_comp = None
     return {
         "args": args,
-        "kwargs": kwargs,
+        "kwargs": {**kwargs, **out},
         "cfs": cfs,
         "kw_cfs": kw_cfs,
         "comoving": ret_cm,
@@ -1085,6 +1089,36 @@ def _return_helper(
     return res
 
 
+def _out_as_keyword(
+    func: Callable, args: tuple[Any], kwargs: dict[str, Any]
+) -> tuple[tuple[Any], dict[str, Any]]:
+    """
+    Pass an ``out`` argument that was given by position by keyword.
+
+    Parameters
+    ----------
+    func : Callable
+        The function that the arguments are for.
+
+    args : tuple[Any]
+        The positional arguments.
+
+    kwargs : dict[str, Any]
+        The keyword arguments.
+
+    Returns
+    -------
+    tuple[tuple[Any], dict[str, Any]]
+        The positional and keyword arguments.
+    """
+    names = list(signature(func).parameters)
+    if "out" in names and len(args) > names.index("out"):
+        n_args = names.index("out")
+        kwargs = {**dict(zip(names[n_args:], args[n_args:])), **kwargs}
+        args = args[:n_args]
+    return args, kwargs
+
+
 def _default_unary_wrapper(
     unyt_func: Callable, cosmo_factor_handler: Callable
 ) -> Callable:
@@ -1129,6 +1163,7 @@ def _default_unary_wrapper(
         Callable
             The wrapped function.
         """
+        args, kwargs = _out_as_keyword(unyt_func, args, kwargs)
         helper_result = _prepare_array_func_args(*args, **kwargs)
         ret_cf = cosmo_factor_handler(helper_result["cfs"][0])
         res = unyt_func(*helper_result["args"], **helper_result["kwargs"])
@@ -1184,6 +1219,7 @@ def _default_binary_wrapper(
         Callable
             The wrapped function.
         """
+        args, kwargs = _out_as_keyword(unyt_func, args, kwargs)
         helper_result = _prepare_array_func_args(*args, **kwargs)
         ret_cf = cosmo_factor_handler(helper_result["cfs"][0], helper_result["cfs"][1])
         res = unyt_func(*helper_result["args"], **helper_result["kwargs"])
@@ -1286,6 +1322,7 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
         Callable
             The wrapped function.
         """
+        args, kwargs = _out_as_keyword(unyt_func, args, kwargs)
         helper_result = _prepare_array_func_args(*args, **kwargs)
         helper_result_oplist = _prepare_array_func_args(*args[0])
         ret_cf = _preserve_cosmo_factor(*helper_result_oplist["cfs"])
@@ -1294,7 +1331,9 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
             *helper_result["args"][1:],
             **helper_result["kwargs"],
         )
-        return _return_helper(res, helper_result_oplist, ret_cf)
+        return _return_helper(
+            res, helper_result_oplist, ret_cf, out=kwargs.get("out")
+        )
 
     return wrapper
 
-- 
2.43.0


From 60f7ef1fac18e09b0a7e966c33e2d99a5c7062af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 53/63] fix: reductions with an initial value in another frame

---
 swiftsimio/_array_functions.py | 38 +++++++++++++++++++++++++++++++---
 swiftsimio/objects.py          |  6 ++++++
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 5e610b8..a5b1b31 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1338,6 +1338,38 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
     return wrapper
 
 
+def _default_reduction_wrapper(reduction: Callable) -> Callable:
+    """
+    Wrap a reduction that numpy implements with the ``reduce`` of a ufunc.
+
+    The result has the attributes of the reduced array, unless there is another
+    :class:`~swiftsimio.objects.cosmo_array` involved (the initial value): then the ufunc
+    has already attached the attributes of the frame that it chose for all of them.
+
+    Parameters
+    ----------
+    reduction : Callable
+        The function to be wrapped.
+
+    Returns
+    -------
+    Callable
+        The wrapped function.
+    """
+
+    def wrapper(
+        a: object, *args: tuple[Any], **kwargs: dict[str, Any]
+    ) -> object:  # noqa numpydoc ignore=GL08
+        res = reduction(a, *args, **kwargs)
+        if any(
+            isinstance(arg, objects.cosmo_array) for arg in (*args, *kwargs.values())
+        ):
+            return res
+        return _copy_cosmo_array_attributes_if_present(a, res)
+
+    return wrapper
+
+
 # Next we wrap functions from unyt and numpy. There's not much point in writing docstrings
 # or type hints for all of these.
 
@@ -2380,8 +2412,8 @@ def average(a, axis=None, weights=None, returned=False, *, keepdims=np._NoValue)
         return _return_helper(res, helper_result, ret_cf_avg)
 
 
-implements(np.max)(_propagate_cosmo_array_attributes_to_result(np.max._implementation))
-implements(np.min)(_propagate_cosmo_array_attributes_to_result(np.min._implementation))
+implements(np.max)(_default_reduction_wrapper(np.max._implementation))
+implements(np.min)(_default_reduction_wrapper(np.min._implementation))
 implements(np.mean)(
     _propagate_cosmo_array_attributes_to_result(np.mean._implementation)
 )
@@ -2391,7 +2423,7 @@ implements(np.median)(
 implements(np.sort)(
     _propagate_cosmo_array_attributes_to_result(np.sort._implementation)
 )
-implements(np.sum)(_propagate_cosmo_array_attributes_to_result(np.sum._implementation))
+implements(np.sum)(_default_reduction_wrapper(np.sum._implementation))
 implements(np.partition)(
     _propagate_cosmo_array_attributes_to_result(np.partition._implementation)
 )
diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 82da0ae..0fde63f 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -2097,6 +2097,9 @@ class cosmo_array(unyt_array):
         ):
             ret_cf = _return_without_cosmo_factor(cfs[0])
         else:
+            if helper_result["kw_cfs"].get("initial") is not None:
+                # a reduction's initial value is one more operand
+                cfs = [*cfs, helper_result["kw_cfs"]["initial"]]
             ret_cf = cls._cosmo_factor_ufunc_registry[ufunc](*cfs, inputs=inputs)
         # the results of divmod have different cosmo_factors
         ret_cfs = ret_cf if isinstance(ret_cf, tuple) else (ret_cf, ret_cf)
@@ -2224,6 +2227,9 @@ class cosmo_array(unyt_array):
         ):
             ret_cf = _return_without_cosmo_factor(cfs[0])
         else:
+            if helper_result["kw_cfs"].get("initial") is not None:
+                # a reduction's initial value is one more operand
+                cfs = [*cfs, helper_result["kw_cfs"]["initial"]]
             ret_cf = self._cosmo_factor_ufunc_registry[ufunc](*cfs, inputs=inputs)
         # the results of divmod have different cosmo_factors
         ret_cfs = ret_cf if isinstance(ret_cf, tuple) else (ret_cf, ret_cf)
-- 
2.43.0


From 6a6672aa5e6ccbffa2a813149df0df7e28fb3139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 54/63] fix: assignment to elements of an array in another
 frame

---
 swiftsimio/objects.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/swiftsimio/objects.py b/swiftsimio/objects.py
index 0fde63f..b811434 100644
--- a/swiftsimio/objects.py
+++ b/swiftsimio/objects.py
@@ -1413,6 +1413,34 @@ class cosmo_array(unyt_array):
     __getitem__ = _propagate_cosmo_array_attributes_to_result(
         _ensure_result_is_cosmo_array_or_quantity(unyt_array.__getitem__)
     )
+
+    def __setitem__(self, item: object, value: object) -> None:
+        """
+        Assign to elements of the array.
+
+        Parameters
+        ----------
+        item : :obj:`object`
+            The index of the elements to assign to.
+        value : :obj:`object`
+            The value(s) to assign. If it is comoving and this array is physical (or vice
+            versa) it is converted first.
+
+        Raises
+        ------
+        ValueError
+            If the value needs to be converted and its ``cosmo_factor`` is not that of
+            this array.
+        """
+        if (
+            isinstance(value, cosmo_array)
+            and None not in (self.comoving, value.comoving)
+            and self.comoving is not value.comoving
+        ):
+            _preserve_cosmo_factor(self.cosmo_factor, value.cosmo_factor)
+            value = value.to(comoving=self.comoving)
+        super().__setitem__(item, value)
+
     dot = _default_binary_wrapper(unyt_array.dot, _multiply_cosmo_factor)
     squeeze = _propagate_cosmo_array_attributes_to_result(
         _ensure_result_is_cosmo_array_or_quantity(unyt_array.squeeze)
-- 
2.43.0


From 7f89956fc1498d2937b17966a388d478251a19ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 55/63] fix: np.digitize of values and bins in different frames

---
 swiftsimio/_array_functions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index a5b1b31..9534bcd 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -20,6 +20,7 @@ import unyt
 from unyt import unyt_quantity, unyt_array
 from swiftsimio import objects
 from unyt._array_functions import (
+    _HANDLED_FUNCTIONS as _UNYT_HANDLED_FUNCTIONS,
     dot as unyt_dot,
     vdot as unyt_vdot,
     inner as unyt_inner,
@@ -2178,6 +2179,12 @@ def putmask(a, mask, values):  # noqa numpydoc ignore=GL08
     unyt_putmask(a, mask, values)
 
 
+implements(np.digitize)(
+    _default_binary_wrapper(
+        _UNYT_HANDLED_FUNCTIONS.get(np.digitize, np.digitize._implementation),
+        _return_without_cosmo_factor,
+    )
+)
 implements(np.searchsorted)(
     _default_binary_wrapper(unyt_searchsorted, _return_without_cosmo_factor)
 )
-- 
2.43.0


From 788c9b75f92b753d44802d4da6dbaf12771ffc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 56/63] fix: frame of the singular values of np.linalg.svd

---
 swiftsimio/_array_functions.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 9534bcd..6e48169 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1443,9 +1443,25 @@ implements(np.linalg.tensorinv)(
 implements(np.linalg.pinv)(
     _default_unary_wrapper(unyt_linalg_pinv, _reciprocal_cosmo_factor)
 )
-implements(np.linalg.svd)(
-    _default_unary_wrapper(unyt_linalg_svd, _preserve_cosmo_factor)
-)
+
+
+@implements(np.linalg.svd)
+def linalg_svd(  # noqa: ANN202
+    a,  # noqa: ANN001
+    full_matrices=True,  # noqa: ANN001
+    compute_uv=True,  # noqa: ANN001
+    hermitian=False,  # noqa: ANN001
+):  # noqa numpydoc ignore=GL08
+    helper_result = _prepare_array_func_args(
+        a, full_matrices=full_matrices, compute_uv=compute_uv, hermitian=hermitian
+    )
+    ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    res = unyt_linalg_svd(*helper_result["args"], **helper_result["kwargs"])
+    if compute_uv:
+        # u and vh are pure numbers
+        u, s, vh = res
+        return u, _return_helper(s, helper_result, ret_cf), vh
+    return _return_helper(res, helper_result, ret_cf)
 
 
 @implements(np.histogram)
-- 
2.43.0


From 38a44eeaf83c4da7550ffb483174702499265ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 57/63] fix: range of a histogram given as quantities in
 another frame

---
 swiftsimio/_array_functions.py | 49 +++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 6e48169..e7792c3 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1404,15 +1404,43 @@ def _check_bins_cosmo_factor(helper_result: dict) -> None:
     Parameters
     ----------
     helper_result : dict
-        Helper function result for the values (first argument) and ``bins`` (keyword).
+        Helper function result for the values (first argument) and ``bins`` and ``range``
+        (keywords).
 
     Raises
     ------
     ValueError
-        If ``bins`` has a cosmo_factor that differs from that of the values.
+        If ``bins`` or ``range`` has a cosmo_factor that differs from that of the values.
     """
-    if helper_result["kw_cfs"]["bins"] is not None:
-        _preserve_cosmo_factor(helper_result["cfs"][0], helper_result["kw_cfs"]["bins"])
+    for name in ("bins", "range"):
+        if helper_result["kw_cfs"].get(name) is not None:
+            _preserve_cosmo_factor(
+                helper_result["cfs"][0], helper_result["kw_cfs"][name]
+            )
+
+
+def _join_limits(limits: object) -> object:
+    """
+    Join a pair of :class:`~swiftsimio.objects.cosmo_quantity` into an array.
+
+    The limits are then converted together with the other arguments of a function.
+
+    Parameters
+    ----------
+    limits : :obj:`object`
+        The limits. Anything but a pair of :class:`~swiftsimio.objects.cosmo_array` is
+        returned.
+
+    Returns
+    -------
+    :obj:`object`
+        The limits.
+    """
+    if isinstance(limits, (tuple, list)) and all(
+        isinstance(limit, objects.cosmo_array) for limit in limits
+    ):
+        return objects.cosmo_array(limits)
+    return limits
 
 
 @implements(np.histogram_bin_edges)
@@ -1422,10 +1450,17 @@ def histogram_bin_edges(  # noqa: ANN202
     range=None,  # noqa: ANN001
     weights=None,  # noqa: ANN001
 ):  # noqa numpydoc ignore=GL08
-    helper_result = _prepare_array_func_args(a, bins=bins, range=range, weights=weights)
+    helper_result = _prepare_array_func_args(
+        a, bins=bins, range=_join_limits(range), weights=weights
+    )
+    _check_bins_cosmo_factor(helper_result)
+    if hasattr(helper_result["kwargs"]["range"], "units"):
+        # unyt needs pure numbers
+        helper_result["kwargs"]["range"] = tuple(
+            helper_result["kwargs"]["range"].to_value(a.units)
+        )
     if not isinstance(bins, str) and np.ndim(bins) == 1:
         # we got bin edges as input
-        _check_bins_cosmo_factor(helper_result)
         ret_cf = _preserve_cosmo_factor(helper_result["kw_cfs"]["bins"])
     else:
         # bins based on values in a
@@ -1473,7 +1508,7 @@ def histogram(  # noqa: ANN202
     weights=None,  # noqa: ANN001
 ):  # noqa numpydoc ignore=GL08
     helper_result = _prepare_array_func_args(
-        a, bins=bins, range=range, density=density, weights=weights
+        a, bins=bins, range=_join_limits(range), density=density, weights=weights
     )
     _check_bins_cosmo_factor(helper_result)
     ret_cf_bins = _preserve_cosmo_factor(helper_result["cfs"][0])
-- 
2.43.0


From 4f77f6fa78e059c84291f334e843437afe8f1938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 58/63] fix: auxiliary operands with another cosmo_factor

---
 swiftsimio/_array_functions.py | 70 +++++++++++++++++++++++++++++++++-
 1 file changed, 68 insertions(+), 2 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index e7792c3..4c5a80a 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1090,6 +1090,60 @@ def _return_helper(
     return res
 
 
+def _check_other_cosmo_factors(
+    cf: "objects.cosmo_factor", *others: "objects.cosmo_factor"
+) -> None:
+    """
+    Check that auxiliary operands have the same cosmo_factor as the main one.
+
+    Parameters
+    ----------
+    cf : swiftsimio.objects.cosmo_factor
+        The :class:`~swiftsimio.objects.cosmo_factor` of the main operand.
+
+    *others : swiftsimio.objects.cosmo_factor
+        The :class:`~swiftsimio.objects.cosmo_factor`s of the other operands, ``None`` for
+        those that do not have one.
+
+    Raises
+    ------
+    ValueError
+        If there is one that is not the same.
+    """
+    _preserve_cosmo_factor(cf, *[other for other in others if other is not None])
+
+
+def _default_joining_wrapper(unyt_func: Callable) -> Callable:
+    """
+    Wrap functions of an array that attach other arguments to it, or to the result.
+
+    All arguments that have a ``cosmo_factor`` need the same one then.
+
+    Parameters
+    ----------
+    unyt_func : Callable
+        The unyt (or numpy) function to be wrapped.
+
+    Returns
+    -------
+    Callable
+        The wrapped function.
+    """
+
+    def wrapper(
+        *args: tuple[Any], **kwargs: dict[str, Any]
+    ) -> object:  # noqa numpydoc ignore=GL08
+        helper_result = _prepare_array_func_args(*args, **kwargs)
+        ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+        _check_other_cosmo_factors(
+            ret_cf, *helper_result["cfs"][1:], *helper_result["kw_cfs"].values()
+        )
+        res = unyt_func(*helper_result["args"], **helper_result["kwargs"])
+        return _return_helper(res, helper_result, ret_cf)
+
+    return wrapper
+
+
 def _out_as_keyword(
     func: Callable, args: tuple[Any], kwargs: dict[str, Any]
 ) -> tuple[tuple[Any], dict[str, Any]]:
@@ -1277,6 +1331,11 @@ def _default_comparison_wrapper(unyt_func: Callable) -> Callable:
         ret_cf = _comparison_cosmo_factor(
             helper_result["cfs"][0], helper_result["cfs"][1], inputs=args[:2]
         )
+        _check_other_cosmo_factors(
+            helper_result["cfs"][0],
+            *helper_result["cfs"][3:],
+            helper_result["kw_cfs"].get("atol"),
+        )
         res = unyt_func(*helper_result["args"], **helper_result["kwargs"])
         return _return_helper(res, helper_result, ret_cf)
 
@@ -2019,8 +2078,8 @@ def linalg_det(a):  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result, ret_cf)
 
 
-implements(np.diff)(_default_unary_wrapper(unyt_diff, _preserve_cosmo_factor))
-implements(np.ediff1d)(_default_unary_wrapper(unyt_ediff1d, _preserve_cosmo_factor))
+implements(np.diff)(_default_joining_wrapper(unyt_diff))
+implements(np.ediff1d)(_default_joining_wrapper(unyt_ediff1d))
 implements(np.ptp)(_default_unary_wrapper(unyt_ptp, _preserve_cosmo_factor))
 # implements(np.cumprod)(...) Omitted because unyt just raises if called.
 
@@ -2031,6 +2090,7 @@ def pad(array, pad_width, mode="constant", **kwargs):  # noqa numpydoc ignore=GL
     # the number of options is huge, including user defined functions to handle data
     # let's just preserve the cosmo_factor of the input `array` and trust the user...
     ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
+    _check_other_cosmo_factors(ret_cf, *helper_result["kw_cfs"].values())
     res = unyt_pad(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
@@ -2384,6 +2444,12 @@ def interp(x, xp, fp, left=None, right=None, period=None):  # noqa numpydoc igno
     if all(cf is not None for cf in helper_result["cfs"][:2]):
         _preserve_cosmo_factor(*helper_result["cfs"][:2])
     ret_cf = _preserve_cosmo_factor(helper_result["cfs"][2])
+    _check_other_cosmo_factors(
+        ret_cf, helper_result["kw_cfs"]["left"], helper_result["kw_cfs"]["right"]
+    )
+    _check_other_cosmo_factors(
+        helper_result["cfs"][0], helper_result["kw_cfs"]["period"]
+    )
     res = unyt_interp(*helper_result["args"], **helper_result["kwargs"])
     return _return_helper(res, helper_result, ret_cf)
 
-- 
2.43.0


From 7233388ff1c145dbeff7291c5f893aeeb299c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 59/63] fix: scaling of discrete Fourier transforms

The values of a transform scale as those that are transformed (they
are sums of these, unyt gives them the same units), but they were
given the reciprocal of their cosmo_factor, so that converting a
transform to the other frame changed it.
---
 swiftsimio/_array_functions.py | 56 +++++++++++-----------------------
 1 file changed, 18 insertions(+), 38 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 4c5a80a..5f0b53f 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -289,9 +289,7 @@ def _ensure_result_is_cosmo_array_or_quantity(func: Callable) -> Callable:
         The wrapped function.
     """
 
-    def wrapped(
-        *args: tuple[Any], **kwargs: dict[str, Any]
-    ) -> object:  # # noqa numpydoc ignore=GL08
+    def wrapped(*args: tuple[Any], **kwargs: dict[str, Any]) -> object:  # # noqa numpydoc ignore=GL08
         # omit docstring so that sphinx picks up docstring of wrapped function
         result = func(*args, **kwargs)
         if isinstance(result, tuple):
@@ -1130,9 +1128,7 @@ def _default_joining_wrapper(unyt_func: Callable) -> Callable:
         The wrapped function.
     """
 
-    def wrapper(
-        *args: tuple[Any], **kwargs: dict[str, Any]
-    ) -> object:  # noqa numpydoc ignore=GL08
+    def wrapper(*args: tuple[Any], **kwargs: dict[str, Any]) -> object:  # noqa numpydoc ignore=GL08
         helper_result = _prepare_array_func_args(*args, **kwargs)
         ret_cf = _preserve_cosmo_factor(helper_result["cfs"][0])
         _check_other_cosmo_factors(
@@ -1391,9 +1387,7 @@ def _default_oplist_wrapper(unyt_func: Callable) -> Callable:
             *helper_result["args"][1:],
             **helper_result["kwargs"],
         )
-        return _return_helper(
-            res, helper_result_oplist, ret_cf, out=kwargs.get("out")
-        )
+        return _return_helper(res, helper_result_oplist, ret_cf, out=kwargs.get("out"))
 
     return wrapper
 
@@ -1417,9 +1411,7 @@ def _default_reduction_wrapper(reduction: Callable) -> Callable:
         The wrapped function.
     """
 
-    def wrapper(
-        a: object, *args: tuple[Any], **kwargs: dict[str, Any]
-    ) -> object:  # noqa numpydoc ignore=GL08
+    def wrapper(a: object, *args: tuple[Any], **kwargs: dict[str, Any]) -> object:  # noqa numpydoc ignore=GL08
         res = reduction(a, *args, **kwargs)
         if any(
             isinstance(arg, objects.cosmo_array) for arg in (*args, *kwargs.values())
@@ -1915,35 +1907,23 @@ def block(arrays):  # noqa numpydoc ignore=GL08
     return _return_helper(res, helper_result_block, ret_cf)
 
 
-implements(np.fft.fft)(_default_unary_wrapper(unyt_fft_fft, _reciprocal_cosmo_factor))
-implements(np.fft.fft2)(_default_unary_wrapper(unyt_fft_fft2, _reciprocal_cosmo_factor))
-implements(np.fft.fftn)(_default_unary_wrapper(unyt_fft_fftn, _reciprocal_cosmo_factor))
-implements(np.fft.hfft)(_default_unary_wrapper(unyt_fft_hfft, _reciprocal_cosmo_factor))
-implements(np.fft.rfft)(_default_unary_wrapper(unyt_fft_rfft, _reciprocal_cosmo_factor))
-implements(np.fft.rfft2)(
-    _default_unary_wrapper(unyt_fft_rfft2, _reciprocal_cosmo_factor)
-)
-implements(np.fft.rfftn)(
-    _default_unary_wrapper(unyt_fft_rfftn, _reciprocal_cosmo_factor)
-)
-implements(np.fft.ifft)(_default_unary_wrapper(unyt_fft_ifft, _reciprocal_cosmo_factor))
-implements(np.fft.ifft2)(
-    _default_unary_wrapper(unyt_fft_ifft2, _reciprocal_cosmo_factor)
-)
-implements(np.fft.ifftn)(
-    _default_unary_wrapper(unyt_fft_ifftn, _reciprocal_cosmo_factor)
-)
-implements(np.fft.ihfft)(
-    _default_unary_wrapper(unyt_fft_ihfft, _reciprocal_cosmo_factor)
-)
-implements(np.fft.irfft)(
-    _default_unary_wrapper(unyt_fft_irfft, _reciprocal_cosmo_factor)
-)
+implements(np.fft.fft)(_default_unary_wrapper(unyt_fft_fft, _preserve_cosmo_factor))
+implements(np.fft.fft2)(_default_unary_wrapper(unyt_fft_fft2, _preserve_cosmo_factor))
+implements(np.fft.fftn)(_default_unary_wrapper(unyt_fft_fftn, _preserve_cosmo_factor))
+implements(np.fft.hfft)(_default_unary_wrapper(unyt_fft_hfft, _preserve_cosmo_factor))
+implements(np.fft.rfft)(_default_unary_wrapper(unyt_fft_rfft, _preserve_cosmo_factor))
+implements(np.fft.rfft2)(_default_unary_wrapper(unyt_fft_rfft2, _preserve_cosmo_factor))
+implements(np.fft.rfftn)(_default_unary_wrapper(unyt_fft_rfftn, _preserve_cosmo_factor))
+implements(np.fft.ifft)(_default_unary_wrapper(unyt_fft_ifft, _preserve_cosmo_factor))
+implements(np.fft.ifft2)(_default_unary_wrapper(unyt_fft_ifft2, _preserve_cosmo_factor))
+implements(np.fft.ifftn)(_default_unary_wrapper(unyt_fft_ifftn, _preserve_cosmo_factor))
+implements(np.fft.ihfft)(_default_unary_wrapper(unyt_fft_ihfft, _preserve_cosmo_factor))
+implements(np.fft.irfft)(_default_unary_wrapper(unyt_fft_irfft, _preserve_cosmo_factor))
 implements(np.fft.irfft2)(
-    _default_unary_wrapper(unyt_fft_irfft2, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_irfft2, _preserve_cosmo_factor)
 )
 implements(np.fft.irfftn)(
-    _default_unary_wrapper(unyt_fft_irfftn, _reciprocal_cosmo_factor)
+    _default_unary_wrapper(unyt_fft_irfftn, _preserve_cosmo_factor)
 )
 implements(np.fft.fftshift)(
     _default_unary_wrapper(unyt_fft_fftshift, _preserve_cosmo_factor)
-- 
2.43.0


From a916ecdbb34989a76284848bf38bff71e3ad94bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:47 +0000
Subject: [PATCH 60/63] fix: np.block of blocks that must not be converted to
 comoving

Blocks in different frames were all converted to comoving, which
raised for those with valid_transform=False; they are now converted
to physical then, like the operands of np.concatenate.
---
 swiftsimio/_array_functions.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/swiftsimio/_array_functions.py b/swiftsimio/_array_functions.py
index 5f0b53f..d01f8d2 100644
--- a/swiftsimio/_array_functions.py
+++ b/swiftsimio/_array_functions.py
@@ -1805,26 +1805,29 @@ implements(np.stack)(_default_oplist_wrapper(unyt_stack))
 implements(np.around)(_default_unary_wrapper(unyt_around, _preserve_cosmo_factor))
 
 
-def _recursive_to_comoving(lst: list) -> list:
+def _recursive_to_frame(lst: list, comoving: bool) -> list:
     """
-    Recursively convert to comoving coordinates.
+    Recursively convert to comoving or physical coordinates.
 
     Parameters
     ----------
     lst : list[cosmo_array]
         List of arrays (possibly nested lists) to convert.
 
+    comoving : bool
+        Whether to convert to comoving (else to physical) coordinates.
+
     Returns
     -------
     list
-        Matching (nested) lists in comoving units.
+        Matching (nested) lists in comoving or physical coordinates.
     """
     ret_lst = list()
     for item in lst:
         if isinstance(item, list):
-            ret_lst.append(_recursive_to_comoving(item))
+            ret_lst.append(_recursive_to_frame(item, comoving))
         else:
-            ret_lst.append(item.to_comoving())
+            ret_lst.append(item.to_comoving() if comoving else item.to_physical())
     return ret_lst
 
 
@@ -1858,7 +1861,8 @@ def _prepare_array_block_args(lst: list, recursing: bool = False) -> dict:
     vts = [hr["valid_transform"] for hr in helper_results]
     comps = [hr["compression"] for hr in helper_results]
     cfs = [hr["cfs"][0] for hr in helper_results]
-    convert_to_cm = False
+    ret_vt = all(vts)
+    convert = False
     if all(cms):
         ret_cm = True
     elif all([cm is None for cm in cms]):
@@ -1871,10 +1875,9 @@ def _prepare_array_block_args(lst: list, recursing: bool = False) -> dict:
     elif all([cm is False for cm in cms]):
         ret_cm = False
     else:
-        # mix of True and False only
-        ret_cm = True
-        convert_to_cm = True
-    ret_vt = all(vts)
+        # mix of True and False only, comoving unless some must not be converted to it
+        ret_cm = ret_vt
+        convert = True
     if len(set(comps)) == 1:
         ret_comp = comps[0]
     else:
@@ -1883,8 +1886,8 @@ def _prepare_array_block_args(lst: list, recursing: bool = False) -> dict:
     for cf in cfs[1:]:
         if cf != ret_cf:
             raise ValueError("Mixed cosmo_factor values in input.")
-    if convert_to_cm:
-        ret_lst = _recursive_to_comoving(lst)
+    if convert:
+        ret_lst = _recursive_to_frame(lst, ret_cm)
     else:
         ret_lst = lst
     return {
-- 
2.43.0


From fcbe4fdbcba08eee24747b1e5b1b8d473a2d15b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:55 +0000
Subject: [PATCH 61/63] fix: folded power spectrum has the cosmo_factor of a
 volume, not of an inverse volume

---
 swiftsimio/visualisation/power_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/power_spectrum.py b/swiftsimio/visualisation/power_spectrum.py
index 24794a1..b9b7948 100644
--- a/swiftsimio/visualisation/power_spectrum.py
+++ b/swiftsimio/visualisation/power_spectrum.py
@@ -384,7 +384,7 @@ def folded_depositions_to_power_spectrum(
         np.zeros(number_of_wavenumber_bins),
         units=box_volume.units,
         comoving=box_volume.comoving,
-        cosmo_factor=box_volume.cosmo_factor**-1,
+        cosmo_factor=box_volume.cosmo_factor,
         name="Power spectrum $P(k)$",
     )
     folding_tracker = np.ones(number_of_wavenumber_bins, dtype=float)
-- 
2.43.0


From 32dde5037bc9db5815702d9ae5a7270d0d1a1e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:12 +0000
Subject: [PATCH 62/63] fix: second values of a 2D colour map given as a list
 or tuple

They were passed to np.ndarray, which takes a shape: a list of integers gave
uninitialised memory, anything else a TypeError.
---
 swiftsimio/visualisation/tools/cmaps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index a65f2a0..7ef9f12 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -195,7 +195,7 @@ class Cmap2D(object):
             horizontal_values = np.array(horizontal_values)
 
         if isinstance(vertical_values, list) or isinstance(vertical_values, tuple):
-            vertical_values = np.ndarray(vertical_values)
+            vertical_values = np.array(vertical_values)
 
         output_shape = horizontal_values.shape + (4,)
 
-- 
2.43.0


From ff7d1b64a7c425ba368cde0c1bddfb1dacdff75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:12 +0000
Subject: [PATCH 63/63] fix: 2D colour maps from images that are not RGBA

The lookup needs four components per pixel: RGB and grey images with alpha
failed when applied, grey and palette images gave wrong colours.
---
 swiftsimio/visualisation/tools/cmaps.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swiftsimio/visualisation/tools/cmaps.py b/swiftsimio/visualisation/tools/cmaps.py
index 7ef9f12..177c347 100644
--- a/swiftsimio/visualisation/tools/cmaps.py
+++ b/swiftsimio/visualisation/tools/cmaps.py
@@ -420,7 +420,8 @@ class ImageCmap2D(Cmap2D):
             )
 
         self._color_map_grid = (
-            np.array(Image.open(self.filename)).astype(np.float32) / 255.0
+            np.array(Image.open(self.filename).convert("RGBA")).astype(np.float32)
+            / 255.0
         )
 
         return
-- 
2.43.0

