From a2eeba276f6a2180cdc31d1fa315ed7427252f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:04 +0000
Subject: [PATCH 01/58] fix: allow selecting one channel per spectral window

Selecting frequencies so that no two selected channels share a spectral
window (or giving the same frequency twice) left nothing to compare spacings
of, and select failed with a zero-size reduction error.
---
 src/pyuvdata/utils/tools.py   | 4 ++--
 src/pyuvdata/uvcal/uvcal.py   | 2 +-
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index b45b67d..3534009 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -214,8 +214,8 @@ def _test_array_constant(array, *, tols=None):
     assert isinstance(tols, tuple), "tols must be a length-2 tuple"
     assert len(tols) == 2, "tols must be a length-2 tuple"
 
-    if array_to_test.size == 1:
-        # arrays with 1 element are constant by definition
+    if array_to_test.size <= 1:
+        # arrays with 0 or 1 elements are constant by definition
         return True
 
     # if min and max are equal don't bother with tolerance checking
diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 18cec26..9e7ed99 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -4178,7 +4178,7 @@ class UVCal(UVBase):
                         "will make it impossible to write this data out to "
                         "calfits files"
                     )
-                elif np.max(freq_ind_separation) > 1:
+                elif np.any(freq_ind_separation > 1):
                     warnings.warn(
                         "Selected frequencies are not contiguous. This "
                         "will make it impossible to write this data out to "
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e577c8a..e0e5435 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -6916,7 +6916,7 @@ class UVData(UVBase):
                         "will make it impossible to write this data out to "
                         "some file types"
                     )
-                elif np.max(freq_ind_separation) > 1:
+                elif np.any(freq_ind_separation > 1):
                     warnings.warn(
                         "Selected frequencies are not contiguous. This "
                         "will make it impossible to write this data out to "
-- 
2.43.0


From 2682bd2d442b6b08fca2eeb7f4e068828342f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:54 +0000
Subject: [PATCH 02/58] fix: put the data in the right place when adding UVData
 objects with a different order

The data of the second object were put in place assuming that its shared and
new entries appear in the same relative order on both objects. If a new
baseline-time, channel or polarization comes before a shared one on the second
object (or the shared ones had to be reordered), visibilities, flags and
nsamples were attached to the wrong baselines, frequencies or polarizations.
Look up where every entry goes instead.
---
 src/pyuvdata/utils/tools.py   | 20 +++++++++++
 src/pyuvdata/uvdata/uvdata.py | 65 ++++++++---------------------------
 2 files changed, 35 insertions(+), 50 deletions(-)

diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index 3534009..4294b30 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -369,3 +369,23 @@ def _sorted_unique_difference(obj1, obj2=None):
         List containing the difference in unique entries between obj1 and obj2.
     """
     return sorted(set(obj1)) if obj2 is None else sorted(set(obj1).difference(obj2))
+
+
+def _get_matching_inds(this_vals, other_vals):
+    """
+    Get the location in one array of each of the values in another.
+
+    Parameters
+    ----------
+    this_vals : ndarray
+        Array of unique values to look in, does not need to be sorted.
+    other_vals : ndarray
+        Array of values to look for, all of which must be in `this_vals`.
+
+    Returns
+    -------
+    ndarray of int
+        Indices such that `this_vals[inds]` is equal to `other_vals`.
+    """
+    this_order = np.argsort(this_vals)
+    return this_order[np.searchsorted(this_vals, other_vals, sorter=this_order)]
diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e0e5435..e680704 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -5547,42 +5547,6 @@ class UVData(UVBase):
         # weird, one-off process (i.e., nothing is cat'd across a particular axis)
         this._consolidate_phase_center_catalogs(other=other, ignore_name=ignore_name)
 
-        # Next, we want to make sure that the ordering of the _overlapping_ data is
-        # the same, so that things can get plugged together in a sensible way.
-        if len(this_blts_ind) != 0:
-            this_argsort = np.argsort(this_blts_ind)
-            other_argsort = np.argsort(other_blts_ind)
-
-            if np.any(this_argsort != other_argsort):
-                temp_ind = np.arange(this.Nblts)
-                temp_ind[this_blts_ind[this_argsort]] = temp_ind[
-                    this_blts_ind[other_argsort]
-                ]
-
-                this.reorder_blts(order=temp_ind)
-
-        if len(this_freq_ind) != 0:
-            this_argsort = np.argsort(this_freq_ind)
-            other_argsort = np.argsort(other_freq_ind)
-            if np.any(this_argsort != other_argsort):
-                temp_ind = np.arange(this.Nfreqs)
-                temp_ind[this_freq_ind[this_argsort]] = temp_ind[
-                    this_freq_ind[other_argsort]
-                ]
-
-                this.reorder_freqs(channel_order=temp_ind)
-
-        if len(this_pol_ind) != 0:
-            this_argsort = np.argsort(this_pol_ind)
-            other_argsort = np.argsort(other_pol_ind)
-            if np.any(this_argsort != other_argsort):
-                temp_ind = np.arange(this.Npols)
-                temp_ind[this_pol_ind[this_argsort]] = temp_ind[
-                    this_pol_ind[other_argsort]
-                ]
-
-                this.reorder_pols(temp_ind)
-
         # Pad out self to accommodate new data
         blt_order = None
         if len(bnew_inds) > 0:
@@ -5707,20 +5671,21 @@ class UVData(UVBase):
                 ).astype(np.bool_)
 
         # Now populate the data
-        pol_t2o = np.nonzero(
-            np.isin(this.polarization_array, other.polarization_array)
-        )[0]
-        this_freqs = this.freq_array
-        other_freqs = other.freq_array
-
-        freq_t2o = np.zeros(this_freqs.shape, dtype=bool)
-        for spw_id in set(this.spw_array).intersection(other.spw_array):
-            mask = this.flex_spw_id_array == spw_id
-            freq_t2o[mask] |= np.isin(
-                this_freqs[mask], other_freqs[other.flex_spw_id_array == spw_id]
-            )
-        freq_t2o = np.nonzero(freq_t2o)[0]
-        blt_t2o = np.nonzero(np.isin(this_blts, other_blts))[0]
+        # All of the values on the other object are now on this object as well, find
+        # where each of them is.
+        pol_t2o = utils.tools._get_matching_inds(
+            this.polarization_array, other.polarization_array
+        )
+        freq_t2o = np.zeros(other.freq_array.shape, dtype=int)
+        for spw_id in other.spw_array:
+            this_spw_inds = np.nonzero(this.flex_spw_id_array == spw_id)[0]
+            other_spw_inds = np.nonzero(other.flex_spw_id_array == spw_id)[0]
+            freq_t2o[other_spw_inds] = this_spw_inds[
+                utils.tools._get_matching_inds(
+                    this.freq_array[this_spw_inds], other.freq_array[other_spw_inds]
+                )
+            ]
+        blt_t2o = utils.tools._get_matching_inds(this_blts, other_blts)
 
         if not self.metadata_only:
             this.data_array[np.ix_(blt_t2o, freq_t2o, pol_t2o)] = other.data_array
-- 
2.43.0


From a150aceb94db1e7f5adb14870fac17ad568c9d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:48 +0000
Subject: [PATCH 03/58] fix: keep flags, nsamples and rectangularity right when
 conjugating baselines

conjugate_bls moved the cross-pol visibilities of the conjugated baselines
to the conjugate polarization, but left their flags and nsamples behind, and
kept a blts_are_rectangular that the new set of baselines may not satisfy.
---
 src/pyuvdata/uvdata/uvdata.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e680704..e70cd90 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3685,10 +3685,18 @@ class UVData(UVBase):
 
             if not self.metadata_only:
                 orig_data_array = copy.copy(self.data_array)
+                orig_flag_array = copy.copy(self.flag_array)
+                orig_nsample_array = copy.copy(self.nsample_array)
                 for pol_ind in np.arange(self.Npols):
                     self.data_array[index_array, :, new_pol_inds[pol_ind]] = np.conj(
                         orig_data_array[index_array, :, pol_ind]
                     )
+                    self.flag_array[index_array, :, new_pol_inds[pol_ind]] = (
+                        orig_flag_array[index_array, :, pol_ind]
+                    )
+                    self.nsample_array[index_array, :, new_pol_inds[pol_ind]] = (
+                        orig_nsample_array[index_array, :, pol_ind]
+                    )
 
             ant_1_vals = self.ant_1_array[index_array]
             ant_2_vals = self.ant_2_array[index_array]
@@ -3699,6 +3707,9 @@ class UVData(UVBase):
             )
             self.Nbls = np.unique(self.baseline_array).size
             self._clear_antpair2ind_cache(self)
+            if self.blts_are_rectangular is not None:
+                # the set of baselines may have changed
+                self.set_rectangularity(force=True)
 
     def reorder_pols(
         self,
-- 
2.43.0


From 7bdfbedc8c1831ff87eb313709c8565c1a5438d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:48 +0000
Subject: [PATCH 04/58] fix: reorder the scan numbers along with the
 baseline-times in reorder_blts

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index e70cd90..efc0a06 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4050,6 +4050,8 @@ class UVData(UVBase):
         self.phase_center_app_dec = self.phase_center_app_dec[index_array]
         self.phase_center_frame_pa = self.phase_center_frame_pa[index_array]
         self.phase_center_id_array = self.phase_center_id_array[index_array]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[index_array]
 
         if not self.metadata_only:
             self.data_array = self.data_array[index_array]
-- 
2.43.0


From 018446f95e635a3f4fa545038bd079abba5b4a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:01 +0000
Subject: [PATCH 05/58] fix: determine the rectangularity from the data after
 reorder_blts(autos_first=True)

The blt_order was trusted to imply rectangularity, but with the autos first
data ordered by (time, baseline) are not rectangular, so antpair2ind and
get_data returned the wrong baseline-times.
---
 src/pyuvdata/uvdata/uvdata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index efc0a06..8b83d22 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -3806,12 +3806,13 @@ class UVData(UVBase):
         if self.blts_are_rectangular is not None and not force:
             return
 
+        # do not rely on the blt_order here: it does not record whether the autos
+        # were put first and it may predate a change of the baseline direction.
         rect, time = utils.bltaxis.determine_rectangularity(
             time_array=self.time_array,
             baseline_array=self.baseline_array,
             nbls=self.Nbls,
             ntimes=self.Ntimes,
-            blt_order=self.blt_order,
         )
         self.blts_are_rectangular = rect
         self.time_axis_faster_than_bls = time
-- 
2.43.0


From 5d3ea1aed7ddbc29038578749f99d9e0227e9714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:35 +0000
Subject: [PATCH 06/58] fix: represent only increasing indices by slices

slicify and _convert_to_slices turned decreasing indices into slices that
drop elements, e.g. get_data on a conjugated baseline of an object with only
the two cross polarizations returned nothing, as did antpair2ind with
ordered=False when the reversed baseline comes first.
---
 src/pyuvdata/utils/tools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/tools.py b/src/pyuvdata/utils/tools.py
index 4294b30..71c8dd5 100644
--- a/src/pyuvdata/utils/tools.py
+++ b/src/pyuvdata/utils/tools.py
@@ -110,6 +110,9 @@ def _convert_to_slices(
     # assert indices is longer than 2, or return trivial solutions
     if len(eval_ind) == 0:
         return [slice(0, 0, 0)], False
+    # the slices can only represent increasing indices
+    if np.any(np.diff(eval_ind) <= 0):
+        return [indices], False
     if len(eval_ind) <= 2:
         return [
             slice(eval_ind[0], eval_ind[-1] + 1, max(eval_ind[-1] - eval_ind[0], 1))
@@ -174,7 +177,9 @@ def slicify(ind: slice | None | IterableType[int]) -> slice | None | IterableTyp
     if len(ind) == 0:
         return None
 
-    if len(set(np.ediff1d(ind))) <= 1:
+    steps = np.ediff1d(ind)
+    # only increasing indices can be represented by a slice
+    if len(set(steps)) <= 1 and np.all(steps > 0):
         return slice(ind[0], ind[-1] + 1, ind[1] - ind[0] if len(ind) > 1 else 1)
     else:
         # can't slicify
-- 
2.43.0


From dcc1a866e105b79bfc426ab88438733767411d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:35 +0000
Subject: [PATCH 07/58] fix: get_data for a pair with both orientations but
 only one cross polarization

When the requested polarization exists for only one of the two orientations
of a baseline present on the object, use only that one.
---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 8b83d22..6e6ab80 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2791,6 +2791,7 @@ class UVData(UVBase):
                     pol_ind1 = np.where(self.polarization_array == pol)[0]
                     if pol_ind1.size == 0:
                         pol_ind1 = None
+                        blt_ind1 = None
 
             if blt_ind2 is None:
                 pol_ind2 = None
@@ -2818,6 +2819,7 @@ class UVData(UVBase):
                     ]
                     if pol_ind2.size == 0:
                         pol_ind2 = None
+                        blt_ind2 = None
 
             pol_ind = (pol_ind1, pol_ind2)
             if (blt_ind1 is None or pol_ind1 is None) and (
-- 
2.43.0


From 9ea939a4c115d83eaa84045a554a828870e4c76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:21 +0000
Subject: [PATCH 08/58] fix: raise the documented KeyError for a baseline
 number without its conjugate pols

get_data and friends failed with an IndexError while building the message.
---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 6e6ab80..dd2b448 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -2804,7 +2804,7 @@ class UVData(UVBase):
                             if isinstance(orig_key, int):
                                 key_print = int(orig_key)
                             else:
-                                key_print = (int(orig_key[0]), int(orig_key[1]))
+                                key_print = (int(key[0]), int(key[1]))
 
                             raise KeyError(
                                 f"Baseline {key_print} not found for polarization "
-- 
2.43.0


From 638b4b9f08721d90baa8c97d5420f32174041dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:00 +0000
Subject: [PATCH 09/58] fix: leave the uvws of unselected baselines alone in
 unproject_phase

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index dd2b448..50af040 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4388,7 +4388,7 @@ class UVData(UVBase):
         self._apply_w_proj(
             new_w_vals=0.0, old_w_vals=self.uvw_array[:, 2], select_mask=select_mask_use
         )
-        self.uvw_array = new_uvw
+        self.uvw_array[select_mask_use] = new_uvw[select_mask_use]
 
         # remove/update phase center
         match_id, match_diffs = utils.phase_center_catalog.look_in_catalog(
-- 
2.43.0


From fe741c07202ed81e0a17f8d6d085825971fbf6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:00 +0000
Subject: [PATCH 10/58] fix: only change the phases of projected baselines when
 antenna positions change

---
 src/pyuvdata/uvdata/uvdata.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 50af040..8aacda4 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4983,10 +4983,13 @@ class UVData(UVBase):
         if np.any(~unprojected_blts):
             # At least some are phased
             if update_vis:
+                # The unprojected blts have no w-proj, so leave their phases alone
                 old_w_vals = self.uvw_array[:, 2].copy()
-                # Treat the unprojected values as having no w-proj previously
-                old_w_vals[unprojected_blts] = 0.0
-                self._apply_w_proj(new_w_vals=new_uvw[:, 2], old_w_vals=old_w_vals)
+                self._apply_w_proj(
+                    new_w_vals=new_uvw[:, 2],
+                    old_w_vals=old_w_vals,
+                    select_mask=~unprojected_blts,
+                )
             else:
                 warnings.warn(
                     "Recalculating uvw_array without adjusting visibility "
@@ -5068,9 +5071,9 @@ class UVData(UVBase):
                 # Also Note that the old values here are being treated as zeros since
                 # we've calcualted relative deltas.
                 self._apply_w_proj(
-                    new_w_vals=0.0,
-                    old_w_vals=delta_uvw[:, 2],  # <-- w-col of the uvws
-                    select_mask=self._check_for_cat_type("unprojected"),
+                    new_w_vals=delta_uvw[:, 2],  # <-- w-col of the uvws
+                    old_w_vals=0.0,
+                    select_mask=~self._check_for_cat_type("unprojected"),
                 )
 
             # Assign the new antenna position values.
-- 
2.43.0


From 8fdb343e86f60c56470ab7dd51249367575fcb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:00 +0000
Subject: [PATCH 11/58] fix: apply the selection mask to the old coordinates in
 phase

---
 src/pyuvdata/uvdata/uvdata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 8aacda4..5e37344 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4784,6 +4784,9 @@ class UVData(UVBase):
         uvw_array = uvw_array[select_mask, :]
         ant_1_array = ant_1_array[select_mask]
         ant_2_array = ant_2_array[select_mask]
+        old_app_ra = old_app_ra[select_mask]
+        old_app_dec = old_app_dec[select_mask]
+        old_frame_pa = old_frame_pa[select_mask]
 
         # We got the meta-data, now handle calculating the apparent coordinates.
         # First, check if we need to look up the phase center in question
-- 
2.43.0


From ee0228b042c7433cdbd07bc1010f6d7d69b0b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:00 +0000
Subject: [PATCH 12/58] fix: use the frame of the phase center looked up in the
 catalog

---
 src/pyuvdata/uvdata/uvdata.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 5e37344..1a816f8 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4807,14 +4807,14 @@ class UVData(UVBase):
         )
 
         # Now calculate position angles.
-        if not phase_frame == "altaz":
+        if phase_dict["cat_frame"] not in [None, "altaz"]:
             new_frame_pa = phs_utils.calc_frame_pos_angle(
                 time_array=time_array,
                 app_ra=new_app_ra,
                 app_dec=new_app_dec,
                 telescope_loc=self.telescope.location,
-                ref_frame=phase_frame,
-                ref_epoch=epoch,
+                ref_frame=phase_dict["cat_frame"],
+                ref_epoch=phase_dict["cat_epoch"],
             )
         else:
             new_frame_pa = np.zeros(time_array.shape, dtype=float)
@@ -4857,7 +4857,7 @@ class UVData(UVBase):
         )
 
         # Extract out information for applying w-projection
-        if cat_type == "unprojected":
+        if phase_dict["cat_type"] == "unprojected":
             new_w_vals = 0.0
         else:
             # Create a blank array and fill in w-vals based on the selection mask, so
-- 
2.43.0


From e8c541cf84f568c3ec20f793be91a631644e8c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:00 +0000
Subject: [PATCH 13/58] fix: do not overwrite a phase center that other data
 are using

---
 src/pyuvdata/uvdata/uvdata.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 1a816f8..8bd4992 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -4425,6 +4425,7 @@ class UVData(UVBase):
         cat_name,
         lookup_name,
         time_array,
+        select_mask=None,
     ):
         """
         Supplies a dictionary with parameters for the phase method to use.
@@ -4502,6 +4503,11 @@ class UVData(UVBase):
                     f"The entry name {cat_name} is not unique inside the phase "
                     "center catalog, adding anyways."
                 )
+                # Only replace the existing entry if no other data are using it
+                if select_mask is not None and np.any(
+                    self.phase_center_id_array[~np.asarray(select_mask)] == cat_id
+                ):
+                    cat_id = None
                 cat_type = "sidereal" if cat_type is None else cat_type
                 cat_lon = lon
                 cat_lat = lat
@@ -4723,6 +4729,12 @@ class UVData(UVBase):
                 else:
                     lat = dec
 
+        if select_mask is not None:
+            if len(select_mask) != self.Nblts:
+                raise IndexError("Selection mask must be of length Nblts.")
+            if not isinstance(select_mask[0], (bool, np.bool_)):
+                raise ValueError("Selection mask must be a boolean array")
+
         # Before moving forward with the heavy calculations, we need to do some
         # basic housekeeping to make sure that we've got the coordinate data that
         # we need in order to proceed.
@@ -4740,6 +4752,7 @@ class UVData(UVBase):
             cat_name=cat_name,
             lookup_name=lookup_name,
             time_array=self.time_array,
+            select_mask=select_mask,
         )
 
         if phase_dict["cat_type"] not in ["ephem", "unprojected"]:
@@ -4773,11 +4786,6 @@ class UVData(UVBase):
             # If no selection mask is specified, then use the Ellipsis to access
             # the full array (and not have to check for None later on)
             select_mask = ...
-        else:
-            if len(select_mask) != self.Nblts:
-                raise IndexError("Selection mask must be of length Nblts.")
-            if not isinstance(select_mask[0], (bool, np.bool_)):
-                raise ValueError("Selection mask must be a boolean array")
 
         time_array = time_array[select_mask]
         lst_array = lst_array[select_mask]
-- 
2.43.0


From 5175471c2b3e182396e9e506b97aaf69df44b112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:23 +0000
Subject: [PATCH 14/58] fix: calculate uvws separately for baselines with
 different position angles

---
 src/pyuvdata/utils/phasing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 994c165..02f1240 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -622,6 +622,8 @@ def calc_uvw(
                     | (app_dec[:-1] != app_dec[1:])
                 ),
             )
+            if frame_pa is not None:
+                unique_mask[1:] |= frame_pa[:-1] != frame_pa[1:]
 
         # GHA -> Hour Angle as measured at Greenwich (because antenna coords are
         # centered such that x-plane intersects the meridian at longitude 0).
-- 
2.43.0


From 455d6f012f4432b25c2234a6b551bbbe7e1407a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:23 +0000
Subject: [PATCH 15/58] fix: position angles near the poles and for repeated
 coordinates

---
 src/pyuvdata/utils/phasing.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/pyuvdata/utils/phasing.py b/src/pyuvdata/utils/phasing.py
index 02f1240..b547526 100644
--- a/src/pyuvdata/utils/phasing.py
+++ b/src/pyuvdata/utils/phasing.py
@@ -1640,13 +1640,9 @@ def calc_frame_pos_angle(
     # This creates an array of unique entries of ra + dec + time, since the processing
     # time for each element can be non-negligible, and entries along the Nblt axis can
     # be highly redundant.
-    unique_mask = np.union1d(
-        np.union1d(
-            np.unique(app_ra, return_index=True)[1],
-            np.unique(app_dec, return_index=True)[1],
-        ),
-        np.unique(time_array, return_index=True)[1],
-    )
+    unique_mask = np.unique(
+        np.stack((app_ra, app_dec, time_array)), axis=1, return_index=True
+    )[1]
 
     # Pluck out the unique entries for each
     unique_ra = app_ra[unique_mask]
@@ -1660,7 +1656,8 @@ def calc_frame_pos_angle(
     # 1 deg arc.
     up_dec = unique_dec + offset_pos
     dn_dec = unique_dec - offset_pos
-    up_ra = dn_ra = unique_ra
+    up_ra = unique_ra.copy()
+    dn_ra = unique_ra.copy()
 
     # Wrap the positions if they happen to go over the poles
     up_ra[up_dec > (np.pi / 2.0)] = np.mod(
@@ -1669,9 +1666,9 @@ def calc_frame_pos_angle(
     up_dec[up_dec > (np.pi / 2.0)] = np.pi - up_dec[up_dec > (np.pi / 2.0)]
 
     dn_ra[-dn_dec > (np.pi / 2.0)] = np.mod(
-        dn_ra[dn_dec > (np.pi / 2.0)] + np.pi, 2.0 * np.pi
+        dn_ra[-dn_dec > (np.pi / 2.0)] + np.pi, 2.0 * np.pi
     )
-    dn_dec[-dn_dec > (np.pi / 2.0)] = np.pi - dn_dec[-dn_dec > (np.pi / 2.0)]
+    dn_dec[-dn_dec > (np.pi / 2.0)] = -np.pi - dn_dec[-dn_dec > (np.pi / 2.0)]
 
     # Run the set of offset coordinates through the "reverse" transform. The two offset
     # positions are concat'd together to help reduce overheads
-- 
2.43.0


From da1da03dbb6dd6f6c752bcbe3911b9f86af26b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 16/58] fix: frequency_average of fully flagged channels in
 later spectral windows

---
 src/pyuvdata/uvdata/uvdata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 8bd4992..0a3f326 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8423,10 +8423,10 @@ class UVData(UVBase):
                         # May not happen due to propagate_flags keyword
                         # mask should be left alone otherwise
                         fully_flagged = np.all(
-                            reg_mask[ax0_inds, this_chan, :, ax2_inds], axis=1
+                            reg_mask[ax0_inds, chan_ind, :, ax2_inds], axis=1
                         )
                         ff_inds = np.nonzero(fully_flagged)
-                        reg_mask[ax0_inds[ff_inds], this_chan, :, ax2_inds[ff_inds]] = (
+                        reg_mask[ax0_inds[ff_inds], chan_ind, :, ax2_inds[ff_inds]] = (
                             False
                         )
                 if this_ragged:
-- 
2.43.0


From 3443fc9416a7c279fd51eba0bbf7faf95677ac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 17/58] fix: frequency_average drops spectral windows with no
 channels left

---
 src/pyuvdata/uvdata/uvdata.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 0a3f326..a14876b 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8516,6 +8516,16 @@ class UVData(UVBase):
         # update Nfreqs
         self.Nfreqs = final_nchan
 
+        # if ragged channels are dropped, some spws can have no channels left
+        spws_to_keep = np.isin(self.spw_array, final_flex_spw_id_array)
+        if not np.all(spws_to_keep):
+            self.spw_array = self.spw_array[spws_to_keep]
+            self.Nspws = self.spw_array.size
+            if self.flex_spw_polarization_array is not None:
+                self.flex_spw_polarization_array = self.flex_spw_polarization_array[
+                    spws_to_keep
+                ]
+
     def get_redundancies(
         self,
         *,
-- 
2.43.0


From ed6aed0713fb180646f29c2a018dfdce4dc5cc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 18/58] fix: upsample_in_time keeps integrations within
 tolerance of max_int_time

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index a14876b..f284318 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7567,7 +7567,7 @@ class UVData(UVBase):
             i0 = i1
 
         # harmonize temporary arrays with existing ones
-        inds_to_keep = np.nonzero(self.integration_time <= max_int_time)
+        inds_to_keep = np.delete(np.arange(self.Nblts), inds_to_upsample[0])
         self._harmonize_resample_arrays(
             inds_to_keep=inds_to_keep,
             temp_baseline=temp_baseline,
-- 
2.43.0


From 18b8cbd9be53df868347e0911db0b9462315ad61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 19/58] fix: downsample_in_time with baselines that have a
 single time

---
 src/pyuvdata/uvdata/uvdata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index f284318..d96c50f 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7814,7 +7814,7 @@ class UVData(UVBase):
                         "The output may include averages across long "
                         "time gaps.".format(bl=self.baseline_to_antnums(bl))
                     )
-                elif not np.isclose(
+                elif dtime.size > 0 and not np.isclose(
                     dtime[0],
                     int_times[0],
                     rtol=self._integration_time.tols[0],
-- 
2.43.0


From 7fc47f05e39e1a36e259c0306aafe93850247e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 20/58] fix: only phase unprojected and driftscan data before
 resampling in time

---
 src/pyuvdata/uvdata/uvdata.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index d96c50f..05bc827 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7487,7 +7487,10 @@ class UVData(UVBase):
                     "resampling."
                 )
                 phase_time = Time(self.time_array[0], format="jd")
-                self.phase_to_time(phase_time)
+                # leave data with other phase centers alone
+                self.phase_to_time(
+                    phase_time, select_mask=unprojected_blts | driftscan_blts
+                )
 
         # we want the ceil of this, but we don't want to get the wrong answer
         # when the number is very close to an integer but just barely above it.
@@ -7866,7 +7869,10 @@ class UVData(UVBase):
                     "resampling."
                 )
                 phase_time = Time(self.time_array[0], format="jd")
-                self.phase_to_time(phase_time)
+                # leave data with other phase centers alone
+                self.phase_to_time(
+                    phase_time, select_mask=unprojected_blts | driftscan_blts
+                )
 
         # make temporary arrays
         temp_baseline = np.zeros((temp_Nblts,), dtype=np.uint64)
-- 
2.43.0


From 07fe6f1b17edc0d16925852937f2ed93597fede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 21/58] fix: restore several driftscan phase centers after
 resampling in time

---
 src/pyuvdata/uvdata/uvdata.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 05bc827..82b4bd9 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7471,7 +7471,7 @@ class UVData(UVBase):
         initial_nphase_ids = np.unique(self.phase_center_id_array).size
         if initial_driftscan:
             initial_phase_catalog = self.phase_center_catalog.copy()
-            initial_ids = self.phase_center_id_array
+            initial_ids = self.phase_center_id_array.copy()
         phased = False
         if initial_unprojected or initial_driftscan:
             if allow_drift:
@@ -7602,7 +7602,8 @@ class UVData(UVBase):
                     if initial_nphase_ids > 1:
                         select_mask = initial_ids == cat_id
                         if not np.any(select_mask):
-                            select_mask = None
+                            # no data are phased to this catalog entry
+                            continue
                     else:
                         select_mask = None
                     self.phase(
@@ -7853,7 +7854,7 @@ class UVData(UVBase):
         initial_nphase_ids = np.unique(self.phase_center_id_array).size
         if initial_driftscan:
             initial_phase_catalog = self.phase_center_catalog.copy()
-            initial_ids = self.phase_center_id_array
+            initial_ids = self.phase_center_id_array.copy()
         phased = False
         if initial_unprojected or initial_driftscan:
             if allow_drift:
@@ -8074,7 +8075,8 @@ class UVData(UVBase):
                     if initial_nphase_ids > 1:
                         select_mask = initial_ids == cat_id
                         if not np.any(select_mask):
-                            select_mask = None
+                            # no data are phased to this catalog entry
+                            continue
                     else:
                         select_mask = None
                     self.phase(
-- 
2.43.0


From 236ed6084dd0ebd7283144e5693c0b32695cb1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:01:09 +0000
Subject: [PATCH 22/58] fix: resample scan_number_array along with the other
 arrays

---
 src/pyuvdata/uvdata/uvdata.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 82b4bd9..4cb0b1e 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7330,6 +7330,7 @@ class UVData(UVBase):
         temp_data,
         temp_flag,
         temp_nsample,
+        temp_scan=None,
         astrometry_library=None,
     ):
         """
@@ -7349,6 +7350,10 @@ class UVData(UVBase):
         self.phase_center_id_array = np.concatenate(
             (self.phase_center_id_array, temp_id_array)
         )
+        if self.scan_number_array is not None:
+            self.scan_number_array = np.concatenate(
+                (self.scan_number_array[inds_to_keep], temp_scan)
+            )
         if not self.metadata_only:
             self.data_array = self.data_array[inds_to_keep]
             self.flag_array = self.flag_array[inds_to_keep]
@@ -7514,6 +7519,11 @@ class UVData(UVBase):
             temp_unprojected_blts = np.zeros((temp_Nblts,), dtype=bool)
         else:
             temp_unprojected_blts = None
+        temp_scan = None
+        if self.scan_number_array is not None:
+            temp_scan = np.repeat(
+                self.scan_number_array[inds_to_upsample], n_new_samples
+            )
         temp_time = np.zeros((temp_Nblts,))
         temp_int_time = np.zeros((temp_Nblts,))
         if self.metadata_only:
@@ -7580,6 +7590,7 @@ class UVData(UVBase):
             temp_data=temp_data,
             temp_flag=temp_flag,
             temp_nsample=temp_nsample,
+            temp_scan=temp_scan,
             astrometry_library=astrometry_library,
         )
 
@@ -7880,6 +7891,9 @@ class UVData(UVBase):
         temp_id_array = np.zeros((temp_Nblts,), dtype=int)
         temp_time = np.zeros((temp_Nblts,))
         temp_int_time = np.zeros((temp_Nblts,))
+        temp_scan = None
+        if self.scan_number_array is not None:
+            temp_scan = np.zeros((temp_Nblts,), dtype=self.scan_number_array.dtype)
         if initial_nphase_ids > 1 and initial_driftscan:
             temp_initial_ids = np.zeros((temp_Nblts,), dtype=int)
         else:
@@ -7944,6 +7958,8 @@ class UVData(UVBase):
                     temp_id_array[temp_idx] = self.phase_center_id_array[
                         averaging_idx[0]
                     ]
+                    if self.scan_number_array is not None:
+                        temp_scan[temp_idx] = self.scan_number_array[averaging_idx[0]]
                     if initial_nphase_ids > 1:
                         if initial_unprojected:
                             unique_unprojected = np.unique(
@@ -8053,6 +8069,7 @@ class UVData(UVBase):
             temp_data=temp_data,
             temp_flag=temp_flag,
             temp_nsample=temp_nsample,
+            temp_scan=temp_scan,
             astrometry_library=astrometry_library,
         )
 
-- 
2.43.0


From 32f3665f5259430b67e79603ca6aa08c7c38da17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:09 +0000
Subject: [PATCH 23/58] fix: update baseline and antenna counts when
 downsampling drops baselines

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 4cb0b1e..2fa3c46 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -7374,6 +7374,8 @@ class UVData(UVBase):
         # update metadata
         self.Nblts = self.baseline_array.shape[0]
         self.Ntimes = np.unique(self.time_array).size
+        self.Nbls = np.unique(self.baseline_array).size
+        self.Nants_data = self._calc_nants_data()
         self.uvw_array = np.zeros((self.Nblts, 3))
 
         # set lst array
-- 
2.43.0


From 2b89247d7b0dd15c797a89dfd8df533be447cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:10 +0000
Subject: [PATCH 24/58] fix: conjugate polarizations when averaging redundant
 baselines

---
 src/pyuvdata/uvdata/uvdata.py | 54 ++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 2fa3c46..8de036b 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -8735,12 +8735,6 @@ class UVData(UVBase):
             new_obj.select(bls=bl_ants, keep_all_metadata=keep_all_metadata)
 
             if not self.metadata_only:
-                # If the baseline is in the "conjugated" list, we will need to
-                # fix the conjugation on assignment (since the visibilities are
-                # tabulated assuming that the baseline position is on the opposite
-                # side of the uvw origin).
-                fix_conj = np.isin(new_obj.baseline_array, conjugates)
-
                 # initalize the data like arrays
                 new_data_shape = (new_obj.Nblts, new_obj.Nfreqs, new_obj.Npols)
                 temp_data_array = np.zeros(new_data_shape, dtype=self.data_array.dtype)
@@ -8753,6 +8747,10 @@ class UVData(UVBase):
                     conj_group = set(group).intersection(conjugates)
                     reg_group = list(set(group) - conj_group)
                     conj_group = list(conj_group)
+                    if group[0] in conj_group:
+                        # the average is assigned to the first baseline, so
+                        # conjugate the ones with the opposite orientation.
+                        reg_group, conj_group = conj_group, reg_group
                 else:
                     reg_group = group
                     conj_group = []
@@ -8849,21 +8847,32 @@ class UVData(UVBase):
                         )
 
                     if not self.metadata_only:
-                        vis_to_avg = np.concatenate(
-                            (
-                                self.data_array[regular_inds],
-                                np.conj(self.data_array[conj_inds]),
+                        vis_to_avg = self.data_array[regular_inds]
+                        nsample_to_avg = self.nsample_array[regular_inds]
+                        flags_to_avg = self.flag_array[regular_inds]
+                        if conj_inds.size > 0:
+                            # conjugating a baseline swaps the cross-pols
+                            pol_inds = utils.pol.reorder_conj_pols(
+                                self.polarization_array
                             )
-                        )
-                        nsample_to_avg = np.concatenate(
-                            (
-                                self.nsample_array[regular_inds],
-                                self.nsample_array[conj_inds],
+                            vis_to_avg = np.concatenate(
+                                (
+                                    vis_to_avg,
+                                    np.conj(self.data_array[conj_inds][..., pol_inds]),
+                                )
+                            )
+                            nsample_to_avg = np.concatenate(
+                                (
+                                    nsample_to_avg,
+                                    self.nsample_array[conj_inds][..., pol_inds],
+                                )
+                            )
+                            flags_to_avg = np.concatenate(
+                                (
+                                    flags_to_avg,
+                                    self.flag_array[conj_inds][..., pol_inds],
+                                )
                             )
-                        )
-                        flags_to_avg = np.concatenate(
-                            (self.flag_array[regular_inds], self.flag_array[conj_inds])
-                        )
                         # if all data is flagged, average it all as if it were not
                         if np.all(flags_to_avg):
                             mask = np.zeros_like(flags_to_avg)
@@ -8880,13 +8889,6 @@ class UVData(UVBase):
                         avg_nsample = np.sum(nsample_to_avg, axis=0)
                         avg_flag = np.all(flags_to_avg, axis=0)
                         temp_data_array[this_obj_ind] = avg_vis
-
-                        # If we need to flip the conjugation, to that on the
-                        # value assignment here.
-                        if fix_conj[this_obj_ind]:
-                            temp_data_array[this_obj_ind] = np.conj(avg_vis)
-                        else:
-                            temp_data_array[this_obj_ind] = avg_vis
                         temp_nsample_array[this_obj_ind] = avg_nsample
                         temp_flag_array[this_obj_ind] = avg_flag
 
-- 
2.43.0


From 135d10e8b767585c6d02f3c8456068162cb9b9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:10 +0000
Subject: [PATCH 25/58] fix: inflate_by_redundancy also expands
 scan_number_array

---
 src/pyuvdata/uvdata/uvdata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvdata.py b/src/pyuvdata/uvdata/uvdata.py
index 8de036b..bc655db 100644
--- a/src/pyuvdata/uvdata/uvdata.py
+++ b/src/pyuvdata/uvdata/uvdata.py
@@ -9000,6 +9000,8 @@ class UVData(UVBase):
         self.phase_center_app_dec = self.phase_center_app_dec[blt_map]
         self.phase_center_frame_pa = self.phase_center_frame_pa[blt_map]
         self.phase_center_id_array = self.phase_center_id_array[blt_map]
+        if self.scan_number_array is not None:
+            self.scan_number_array = self.scan_number_array[blt_map]
 
         self.reorder_blts(order=blt_order, minor_order=blt_minor_order)
 
-- 
2.43.0


From 47a8e3f337279b1af64941337bbac63576075c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 26/58] fix: UVFlag.to_baseline with waterfall times that are
 not sorted

---
 src/pyuvdata/uvflag/uvflag.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index a111c23..8963f7c 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1512,7 +1512,7 @@ class UVFlag(UVBase):
                 arr = np.zeros_like(uv.flag_array, dtype=np.float64)
                 warr = np.zeros_like(uv.flag_array, dtype=np.float64)
                 sarr = self.metric_array
-            for i, t in enumerate(np.unique(self.time_array)):
+            for i, t in enumerate(self.time_array):
                 ti = np.where(
                     np.isclose(
                         uv.time_array,
-- 
2.43.0


From 1a7cfa0a8a0ee8165e7d8ff4c031c011ae5251aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 27/58] fix: select by freq_chans on UVFlag objects with a
 single channel

---
 src/pyuvdata/uvflag/uvflag.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 8963f7c..963c7cb 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -2673,13 +2673,13 @@ class UVFlag(UVBase):
             if np.array(freq_chans).ndim > 1:
                 freq_chans = np.array(freq_chans).flatten()
             if frequencies is None:
-                frequencies = np.squeeze(self.freq_array)[freq_chans]
+                frequencies = self.freq_array[freq_chans]
 
             else:
                 frequencies = utils.tools._get_iterable(frequencies)
                 frequencies = np.sort(
                     list(
-                        set(frequencies) | set(np.squeeze(self.freq_array)[freq_chans])
+                        set(frequencies) | set(self.freq_array[freq_chans])
                     )
                 )
 
-- 
2.43.0


From aae6e6a95206114a3bbd74e5503d49f277a3d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 28/58] fix: apply_uvflag lines up polarizations and checks for
 mismatches of either sign

---
 src/pyuvdata/utils/apply_uvflag.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index a43f92b..36b4dc8 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -64,6 +64,7 @@ def apply_uvflag(
             if uvf.Npols == 1 and force_pol:
                 # if uvf is 1pol we can make them match: also edits inplace
                 uvf.polarization_array = uvd.polarization_array
+                uvf.flag_array = uvf.flag_array.repeat(uvd.Npols, axis=-1)
                 uvf.Npols = len(uvf.polarization_array)
                 uvf_pols = uvf.polarization_array.tolist()
 
@@ -71,9 +72,9 @@ def apply_uvflag(
                 raise ValueError("Input uvf and uvd polarizations do not match")
 
         # make sure polarization ordering is correct: also edits inplace
-        uvf.polarization_array = uvf.polarization_array[
-            [uvd_pols.index(pol) for pol in uvf_pols]
-        ]
+        pol_order = [uvf_pols.index(pol) for pol in uvd_pols]
+        uvf.polarization_array = uvf.polarization_array[pol_order]
+        uvf.flag_array = uvf.flag_array[..., pol_order]
 
     # check time and freq shapes match: if Ntimes or Nfreqs is 1, allow
     # implicit broadcasting
@@ -81,7 +82,7 @@ def apply_uvflag(
         mismatch_times = False
     elif uvf.Ntimes == uvd.Ntimes:
         tdiff = np.unique(uvf.time_array) - np.unique(uvd.time_array)
-        mismatch_times = np.any(tdiff > np.max(np.abs(uvf._time_array.tols)))
+        mismatch_times = np.any(np.abs(tdiff) > np.max(np.abs(uvf._time_array.tols)))
     else:
         mismatch_times = True
     if mismatch_times:
@@ -91,7 +92,7 @@ def apply_uvflag(
         mismatch_freqs = False
     elif uvf.Nfreqs == uvd.Nfreqs:
         fdiff = np.unique(uvf.freq_array) - np.unique(uvd.freq_array)
-        mismatch_freqs = np.any(fdiff > np.max(np.abs(uvf._freq_array.tols)))
+        mismatch_freqs = np.any(np.abs(fdiff) > np.max(np.abs(uvf._freq_array.tols)))
     else:
         mismatch_freqs = True
     if mismatch_freqs:
-- 
2.43.0


From 041a6ff5093868b949223058d1b1c14159b24731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 29/58] fix: apply_uvflag lines up times and frequencies that
 are in a different order

---
 src/pyuvdata/utils/apply_uvflag.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/utils/apply_uvflag.py b/src/pyuvdata/utils/apply_uvflag.py
index 36b4dc8..a2c90ba 100644
--- a/src/pyuvdata/utils/apply_uvflag.py
+++ b/src/pyuvdata/utils/apply_uvflag.py
@@ -98,6 +98,11 @@ def apply_uvflag(
     if mismatch_freqs:
         raise ValueError("UVFlag and UVData have mismatched frequency arrays.")
 
+    # line up the frequencies
+    if uvf.Nfreqs > 1:
+        freq_rank = np.argsort(np.argsort(uvd.freq_array))
+        uvf.flag_array = uvf.flag_array[:, np.argsort(uvf.freq_array)[freq_rank]]
+
     # unflag if desired
     if unflag_first:
         uvd.flag_array[:] = False
@@ -112,8 +117,15 @@ def apply_uvflag(
                 uvd.flag_array[uvd_ap_inds] = True
             continue
         uvf_ap_inds = uvf.antpair2ind(*ap)
+        uvf_flags = uvf.flag_array[uvf_ap_inds]
+        # line up the times
+        uvd_times = uvd.time_array[uvd_ap_inds]
+        uvf_times = uvf.time_array[uvf_ap_inds]
+        if uvd_times.size == uvf_times.size:
+            time_rank = np.argsort(np.argsort(uvd_times))
+            uvf_flags = uvf_flags[np.argsort(uvf_times)[time_rank]]
         # addition of boolean is OR
-        uvd.flag_array[uvd_ap_inds] += uvf.flag_array[uvf_ap_inds]
+        uvd.flag_array[uvd_ap_inds] += uvf_flags
 
     uvd.history += "\nFlagged with pyuvdata.utils.apply_uvflags."
 
-- 
2.43.0


From 835e0a8e4648d948b7fae39eea51da3e92d0274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 30/58] fix: keep antenna diameters with their antennas in
 UVFlag.sort_ant_metadata_like

---
 src/pyuvdata/uvflag/uvflag.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 963c7cb..baca839 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1383,6 +1383,10 @@ class UVFlag(UVBase):
                 self.telescope.antenna_positions = self.telescope.antenna_positions[
                     this_uv_sort
                 ]
+            if self.telescope.antenna_diameters is not None:
+                self.telescope.antenna_diameters = self.telescope.antenna_diameters[
+                    this_uv_sort
+                ]
 
     def to_baseline(
         self,
-- 
2.43.0


From b3712c80a0a4af107653b82e8da1caa8f03d8839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:31 +0000
Subject: [PATCH 31/58] fix: UVFlag.to_baseline: update Ntimes along with
 time_array

---
 src/pyuvdata/uvflag/uvflag.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index baca839..4318f9a 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -1591,6 +1591,7 @@ class UVFlag(UVBase):
         self.time_array = uv.time_array
         self.lst_array = uv.lst_array
         self.Nblts = self.time_array.size
+        self.Ntimes = np.unique(self.time_array).size
 
         for param in self.telescope:
             this_param = getattr(self.telescope, param)
-- 
2.43.0


From 48940ebd25677a7195479ff0c7f277dc922bcffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:05 +0000
Subject: [PATCH 32/58] fix: select by LST when an lst_range of the object or
 of the selection wraps

---
 src/pyuvdata/utils/times.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/pyuvdata/utils/times.py b/src/pyuvdata/utils/times.py
index b5d6d39..f8535a9 100644
--- a/src/pyuvdata/utils/times.py
+++ b/src/pyuvdata/utils/times.py
@@ -461,12 +461,11 @@ def _select_times_helper(
                         (obj_lst_range[:, 0] <= lst), (obj_lst_range[:, 1] >= lst)
                     )
                 )[0]
-                if lst_ind.size == 0 and np.any(lst_range_wrap):
-                    for lr_ind in np.nonzero(lst_range_wrap)[0]:
-                        if (obj_lst_range[lr_ind, 0] <= lst and lst <= 2 * np.pi) or (
-                            lst >= 0 and lst <= obj_lst_range[lr_ind, 1]
-                        ):
-                            lst_ind = np.array([lr_ind])
+                for lr_ind in np.nonzero(lst_range_wrap)[0]:
+                    if (obj_lst_range[lr_ind, 0] <= lst and lst <= 2 * np.pi) or (
+                        lst >= 0 and lst <= obj_lst_range[lr_ind, 1]
+                    ):
+                        lst_ind = np.append(lst_ind, lr_ind)
                 if lst_ind.size > 0:
                     time_inds = np.append(time_inds, lst_ind)
                 else:
-- 
2.43.0


From 61e68ea3e9345e5b7d33c04c4340a9da4f7904e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:39 +0000
Subject: [PATCH 33/58] fix: overlap of LST ranges that wrap

---
 src/pyuvdata/utils/times.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/utils/times.py b/src/pyuvdata/utils/times.py
index f8535a9..1b8fb63 100644
--- a/src/pyuvdata/utils/times.py
+++ b/src/pyuvdata/utils/times.py
@@ -495,15 +495,20 @@ def _select_times_helper(
                 "LST values are assumed to be in radians, not hours."
             )
         if obj_lst_range is not None:
+            # split ranges that wrap around LST = 2*pi = 0
+            select_ranges = [lst_range]
+            if lst_range[1] < lst_range[0]:
+                select_ranges = [[lst_range[0], 2 * np.pi], [0, lst_range[1]]]
             for lind, lrange in enumerate(obj_lst_range):
-                if not lst_range_wrap[lind] and lst_range[0] < lst_range[1]:
-                    if _check_range_overlap(np.stack((lrange, lst_range), axis=0)):
-                        time_inds = np.append(time_inds, lind)
-                else:
-                    if (lst_range[0] >= lrange[0] and lst_range[0] <= 2 * np.pi) or (
-                        lst_range[1] <= lrange[1] and lst_range[1] >= 0
-                    ):
-                        time_inds = np.append(time_inds, lind)
+                this_ranges = [lrange]
+                if lst_range_wrap[lind]:
+                    this_ranges = [[lrange[0], 2 * np.pi], [0, lrange[1]]]
+                if any(
+                    _check_range_overlap(np.stack((range1, range2), axis=0))
+                    for range1 in this_ranges
+                    for range2 in select_ranges
+                ):
+                    time_inds = np.append(time_inds, lind)
             attr_str = "lst_range"
         else:
             if lst_range[1] < lst_range[0]:
-- 
2.43.0


From ea5a21c60e6dddb5caf735c9cbd3e0533258c8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:39 +0000
Subject: [PATCH 34/58] fix: put the solutions in the right place when adding
 UVCal objects with a different order

---
 src/pyuvdata/uvcal/uvcal.py | 41 ++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 9e7ed99..43230c1 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3231,27 +3231,36 @@ class UVCal(UVBase):
 
         # Now populate the data
         if not self.metadata_only:
-            jones_t2o = np.nonzero(np.isin(this.jones_array, other.jones_array))[0]
+            # All of the values on the other object are now on this object as well,
+            # find where each of them is.
+            jones_t2o = utils.tools._get_matching_inds(
+                this.jones_array, other.jones_array
+            )
             if this.time_range is not None:
-                times_t2o = np.nonzero(
-                    (np.isin(this.time_range[:, 0], other.time_range[:, 0]))
-                    & (np.isin(this.time_range[:, 1], other.time_range[:, 1]))
-                )[0]
+                times_t2o = utils.tools._get_matching_inds(
+                    this.time_range[:, 0], other.time_range[:, 0]
+                )
             else:
-                times_t2o = np.nonzero(np.isin(this.time_array, other.time_array))[0]
+                times_t2o = utils.tools._get_matching_inds(
+                    this.time_array, other.time_array
+                )
 
             if self.wide_band:
-                freqs_t2o = np.nonzero(np.isin(this.spw_array, other.spw_array))[0]
+                freqs_t2o = utils.tools._get_matching_inds(
+                    this.spw_array, other.spw_array
+                )
             else:
-                freqs_t2o = np.zeros(this.freq_array.shape, dtype=bool)
-                for spw_id in set(this.spw_array).intersection(other.spw_array):
-                    mask = this.flex_spw_id_array == spw_id
-                    freqs_t2o[mask] |= np.isin(
-                        this.freq_array[mask],
-                        other.freq_array[other.flex_spw_id_array == spw_id],
-                    )
-                freqs_t2o = np.nonzero(freqs_t2o)[0]
-            ants_t2o = np.nonzero(np.isin(this.ant_array, other.ant_array))[0]
+                freqs_t2o = np.zeros(other.freq_array.shape, dtype=int)
+                for spw_id in other.spw_array:
+                    this_spw_inds = np.nonzero(this.flex_spw_id_array == spw_id)[0]
+                    other_spw_inds = np.nonzero(other.flex_spw_id_array == spw_id)[0]
+                    freqs_t2o[other_spw_inds] = this_spw_inds[
+                        utils.tools._get_matching_inds(
+                            this.freq_array[this_spw_inds],
+                            other.freq_array[other_spw_inds],
+                        )
+                    ]
+            ants_t2o = utils.tools._get_matching_inds(this.ant_array, other.ant_array)
             if this.cal_type == "delay":
                 this.delay_array[np.ix_(ants_t2o, freqs_t2o, times_t2o, jones_t2o)] = (
                     other.delay_array
-- 
2.43.0


From 743d18b58e2544e2ad9ada4912e84ed839d6b9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:55 +0000
Subject: [PATCH 35/58] fix: keep flex_jones_array with its spectral windows
 when combining UVCal objects

---
 src/pyuvdata/uvcal/uvcal.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 43230c1..0f89d3e 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -3015,9 +3015,9 @@ class UVCal(UVBase):
                 unique_index = np.sort(
                     np.unique(this.flex_spw_id_array, return_index=True)[1]
                 )
+                concat_spw_array = np.concatenate([this.spw_array, other.spw_array])
                 this.spw_array = np.sort(this.flex_spw_id_array[unique_index])
                 if this.flex_jones_array is not None:
-                    concat_spw_array = np.concatenate([this.spw_array, other.spw_array])
                     spw_index = np.asarray(
                         [
                             np.nonzero(concat_spw_array == spw)[0][0]
@@ -3319,6 +3319,8 @@ class UVCal(UVBase):
             if this.wide_band:
                 this.spw_array = this.spw_array[f_order]
                 this.freq_range = this.freq_range[f_order]
+                if this.flex_jones_array is not None:
+                    this.flex_jones_array = this.flex_jones_array[f_order]
             else:
                 this.freq_array = this.freq_array[f_order]
                 this.channel_width = this.channel_width[f_order]
@@ -3724,12 +3726,12 @@ class UVCal(UVBase):
             unique_index = np.sort(
                 np.unique(this.flex_spw_id_array, return_index=True)[1]
             )
+            concat_spw_array = np.concatenate(
+                [this.spw_array] + [obj.spw_array for obj in other]
+            )
             this.spw_array = this.flex_spw_id_array[unique_index]
             this.Nspws = this.spw_array.size
             if this.flex_jones_array is not None:
-                concat_spw_array = np.concatenate(
-                    [this.spw_array] + [obj.spw_array for obj in other]
-                )
                 spw_index = np.asarray(
                     [
                         np.nonzero(concat_spw_array == spw)[0][0]
-- 
2.43.0


From 3d4e19f43c1d749c1cd0396a08d4058d6d797b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:09 +0000
Subject: [PATCH 36/58] fix: combine total_quality_array of wide-band UVCal
 objects or without a quality_array

---
 src/pyuvdata/uvcal/uvcal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 0f89d3e..2c99115 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -2926,8 +2926,8 @@ class UVCal(UVBase):
 
         # Initialize tqa variables
         can_combine_tqa = True
-        if this.cal_type == "delay":
-            Nf_tqa = 1
+        if this.wide_band:
+            Nf_tqa = this.Nspws
         else:
             Nf_tqa = this.Nfreqs
 
@@ -3155,14 +3155,14 @@ class UVCal(UVBase):
 
                 if this.total_quality_array is not None and can_combine_tqa:
                     zero_pad = np.zeros(
-                        (this.quality_array.shape[1], len(tnew_inds), this.Njones)
+                        (data_array_shape[1], len(tnew_inds), this.Njones)
                     )
                     this.total_quality_array = np.concatenate(
                         [this.total_quality_array, zero_pad], axis=1
                     )
                 elif other.total_quality_array is not None and can_combine_tqa:
                     zero_pad = np.zeros(
-                        (this.quality_array.shape[1], len(tnew_inds), this.Njones)
+                        (data_array_shape[1], len(tnew_inds), this.Njones)
                     )
                     this.total_quality_array = np.zeros(
                         (Nf_tqa, this.Ntimes, this.Njones)
-- 
2.43.0


From 6ee721f21ff975152592d61cfd43f1e1321af4f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:58 +0000
Subject: [PATCH 37/58] fix: uvcalibrate lines up the times and frequencies of
 the two objects

---
 src/pyuvdata/utils/uvcalibrate.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/utils/uvcalibrate.py b/src/pyuvdata/utils/uvcalibrate.py
index fb01f55..9f1451c 100644
--- a/src/pyuvdata/utils/uvcalibrate.py
+++ b/src/pyuvdata/utils/uvcalibrate.py
@@ -516,6 +516,28 @@ def uvcalibrate(
             zip(uvcal.telescope.antenna_names, uvcal.telescope.antenna_numbers)
         )
 
+        # The times and frequencies can be in a different order on the two objects and
+        # baselines may not have all the times, so find the calibration time for each
+        # baseline-time and the calibration channel for each frequency.
+        if uvcal_use.Ntimes == 1:
+            cal_time_inds = np.zeros(uvdata.Nblts, dtype=int)
+        elif uvcal.time_range is not None:
+            cal_time_inds = trange_ind_arr
+        else:
+            cal_time_inds = np.argmin(
+                np.abs(uvdata.time_array[:, np.newaxis] - uvcal_use.time_array), axis=1
+            )
+        cal_freq_inds = np.arange(uvdata.Nfreqs)
+        if uvcal_use.Nfreqs != uvdata.Nfreqs or not np.allclose(
+            uvcal_use.freq_array,
+            uvdata.freq_array,
+            atol=uvdata._freq_array.tols[1],
+            rtol=uvdata._freq_array.tols[0],
+        ):
+            cal_freq_inds = np.argmin(
+                np.abs(uvdata.freq_array[:, np.newaxis] - uvcal_use.freq_array), axis=1
+            )
+
         # iterate over keys
         for key in uvdata.get_antpairpols():
             # get indices for this key
@@ -559,9 +581,8 @@ def uvcalibrate(
                 ).T  # tranpose to match uvdata shape
             flag = (uvcal_use.get_flags(uvcal_key1) | uvcal_use.get_flags(uvcal_key2)).T
 
-            if uvcal.time_range is not None and uvcal.Ntimes > 1:
-                gain = gain[trange_ind_arr[blt_inds], :]
-                flag = flag[trange_ind_arr[blt_inds], :]
+            gain = gain[np.ix_(cal_time_inds[blt_inds], cal_freq_inds)]
+            flag = flag[np.ix_(cal_time_inds[blt_inds], cal_freq_inds)]
 
             # propagate flags
             if prop_flags:
-- 
2.43.0


From 3604f643aa565cc19fc1a85609f76a8c577a6f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:01 +0000
Subject: [PATCH 38/58] fix: keep polarization labels with their data in
 UVBeam.select

---
 src/pyuvdata/uvbeam/uvbeam.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 1e48a49..6aa8d1f 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -3212,9 +3212,8 @@ class UVBeam(UVBase):
                     )
 
             initial_pols = beam_object.polarization_array.copy()
-            final_pols = beam_object.polarization_array[pol_inds]
-
             pol_inds = sorted(set(pol_inds))
+            final_pols = beam_object.polarization_array[pol_inds]
             beam_object.Npols = len(pol_inds)
             beam_object.polarization_array = final_pols
 
-- 
2.43.0


From 22252bdf51a7682d8a2e6fa4c5a899747fe2a6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:01 +0000
Subject: [PATCH 39/58] fix: line up the axes of the two objects in
 UVBeam.__add__

---
 src/pyuvdata/uvbeam/uvbeam.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 6aa8d1f..ee8f2ab 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2759,9 +2759,9 @@ class UVBeam(UVBase):
         # Now populate the data
         if this.beam_type == "power":
             this.Npols = this.polarization_array.shape[0]
-            pol_t2o = np.nonzero(
-                np.isin(this.polarization_array, other.polarization_array)
-            )[0]
+            pol_t2o = utils.tools._get_matching_inds(
+                this.polarization_array, other.polarization_array
+            )
 
             if len(pnew_inds) > 0:
                 # if this does not have cross pols but other does promote to complex
@@ -2777,13 +2777,15 @@ class UVBeam(UVBase):
                     this.data_array = np.asarray(this.data_array, dtype=dtype_use)
         else:
             this.Nfeeds = this.feed_array.shape[0]
-            pol_t2o = np.nonzero(np.isin(this.feed_array, other.feed_array))[0]
+            pol_t2o = utils.tools._get_matching_inds(this.feed_array, other.feed_array)
 
-        freq_t2o = np.nonzero(np.isin(this.freq_array, other.freq_array))[0]
+        freq_t2o = utils.tools._get_matching_inds(this.freq_array, other.freq_array)
 
         if this.pixel_coordinate_system == "healpix":
             this.Npixels = this.pixel_array.shape[0]
-            pix_t2o = np.nonzero(np.isin(this.pixel_array, other.pixel_array))[0]
+            pix_t2o = utils.tools._get_matching_inds(
+                this.pixel_array, other.pixel_array
+            )
             this.data_array[
                 np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, pix_t2o)
             ] = other.data_array
@@ -2794,8 +2796,12 @@ class UVBeam(UVBase):
         else:
             this.Naxes1 = this.axis1_array.shape[0]
             this.Naxes2 = this.axis2_array.shape[0]
-            ax1_t2o = np.nonzero(np.isin(this.axis1_array, other.axis1_array))[0]
-            ax2_t2o = np.nonzero(np.isin(this.axis2_array, other.axis2_array))[0]
+            ax1_t2o = utils.tools._get_matching_inds(
+                this.axis1_array, other.axis1_array
+            )
+            ax2_t2o = utils.tools._get_matching_inds(
+                this.axis2_array, other.axis2_array
+            )
             this.data_array[
                 np.ix_(np.arange(this.Naxes_vec), pol_t2o, freq_t2o, ax2_t2o, ax1_t2o)
             ] = other.data_array
-- 
2.43.0


From 5d16d2c7a6decc9403385f7d5f18cfa6576eae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:01 +0000
Subject: [PATCH 40/58] fix: return the bandpass of every frequency from
 UVBeam.interp

---
 src/pyuvdata/uvbeam/uvbeam.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index ee8f2ab..4a28e50 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -1379,7 +1379,7 @@ class UVBeam(UVBase):
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
             freq_array = self.freq_array
-            interp_bandpass = self.bandpass_array[0]
+            interp_bandpass = self.bandpass_array
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
@@ -1659,8 +1659,8 @@ class UVBeam(UVBase):
         else:
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
-            freq_array = self.freq_array[0]
-            interp_bandpass = self.bandpass_array[0]
+            freq_array = self.freq_array
+            interp_bandpass = self.bandpass_array
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
 
-- 
2.43.0


From ca964a35db34ad7e6a76cd0a12df1c58b8f6d134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:06 +0000
Subject: [PATCH 41/58] fix: allocate complex data for new UVBeam objects with
 cross polarizations

---
 src/pyuvdata/uvbeam/initializers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/initializers.py b/src/pyuvdata/uvbeam/initializers.py
index 7199406..3615bd9 100644
--- a/src/pyuvdata/uvbeam/initializers.py
+++ b/src/pyuvdata/uvbeam/initializers.py
@@ -345,7 +345,11 @@ def new_uvbeam(
         data_type = complex
         polax = uvb.Nfeeds
     else:
-        data_type = float
+        # If cross pols are included, the power beam is complex. Otherwise it's real
+        if np.intersect1d(uvb.polarization_array, [-3, -4, -7, -8]).size > 0:
+            data_type = complex
+        else:
+            data_type = float
         polax = uvb.Npols
 
     if uvb.pixel_coordinate_system == "healpix":
-- 
2.43.0


From b7b24a0cccc1d32616415bc0d52e537503272300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:47 +0000
Subject: [PATCH 42/58] fix: do not reuse the splines of other data in
 UVBeam.interp

---
 src/pyuvdata/uvbeam/uvbeam.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 4a28e50..9ac0e65 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -840,6 +840,11 @@ class UVBeam(UVBase):
 
         return True
 
+    def _clear_saved_interp(self):
+        """Remove saved interpolation functions, for when the data change."""
+        if hasattr(self, "saved_interp_functions"):
+            del self.saved_interp_functions
+
     def peak_normalize(self):
         """Convert to peak normalization."""
         if self.data_normalization == "solid_angle":
@@ -847,6 +852,7 @@ class UVBeam(UVBase):
                 "Conversion from solid_angle to peak "
                 "normalization is not yet implemented"
             )
+        self._clear_saved_interp()
         for i in range(self.Nfreqs):
             max_val = abs(self.data_array[:, :, i]).max()
             self.data_array[:, :, i, :] /= max_val
@@ -901,6 +907,7 @@ class UVBeam(UVBase):
             beam_object = self
         else:
             beam_object = self.copy()
+        beam_object._clear_saved_interp()
 
         if beam_object.Nfeeds == 1:
             # There are no cross pols with one feed. Set this so the power beam is real
@@ -1127,6 +1134,7 @@ class UVBeam(UVBase):
             beam_object = self
         else:
             beam_object = self.copy()
+        beam_object._clear_saved_interp()
 
         if beam_object.beam_type != "efield":
             raise ValueError("beam_type must be efield.")
@@ -1379,6 +1387,7 @@ class UVBeam(UVBase):
             input_data_array = self.data_array
             input_nfreqs = self.Nfreqs
             freq_array = self.freq_array
+            freq_interp_kind = None
             interp_bandpass = self.bandpass_array
             if self.antenna_type == "phased_array":
                 interp_coupling_matrix = self.coupling_matrix
@@ -1533,7 +1542,7 @@ class UVBeam(UVBase):
             for index0 in range(self.Naxes_vec):
                 for pol_return_ind, index2 in enumerate(pol_inds):
                     do_interp = True
-                    key = (freq, index2, index0)
+                    key = (freq, index2, index0, freq_interp_kind, str(spline_opts))
                     if reuse_spline:
                         if key in self.saved_interp_functions.keys():
                             do_interp = False
@@ -2487,6 +2496,8 @@ class UVBeam(UVBase):
                             )
 
         # Update filename parameter
+        this._clear_saved_interp()
+
         this.filename = utils.tools._combine_filenames(this.filename, other.filename)
         if this.filename is not None:
             this._filename.form = (len(this.filename),)
@@ -2959,6 +2970,7 @@ class UVBeam(UVBase):
             beam_object = self
         else:
             beam_object = self.copy()
+        beam_object._clear_saved_interp()
 
         # build up history string as we go
         history_update_string = "  Downselected to specific "
-- 
2.43.0


From 22c50759f4133127594aa3a371c10de8e21cbeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:47 +0000
Subject: [PATCH 43/58] fix: update the polarizations of UVBeam objects made by
 interp

---
 src/pyuvdata/uvbeam/uvbeam.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 9ac0e65..8a0f510 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -2044,6 +2044,20 @@ class UVBeam(UVBase):
                         )
                         setattr(new_uvb, param_name, None)
 
+            if (
+                polarizations is not None
+                and self.beam_type == "power"
+                and (az_array is not None or healpix_nside is not None)
+            ):
+                new_uvb.polarization_array = np.array(
+                    utils.polstr2num(polarizations, x_orientation=self.x_orientation)
+                )
+                new_uvb.Npols = new_uvb.polarization_array.size
+                cross_pols = [-3, -4, -7, -8]
+                if np.intersect1d(new_uvb.polarization_array, cross_pols).size == 0:
+                    # without the cross pols the power beam is real
+                    interp_data = interp_data.real
+
             if az_array is not None:
                 if freq_array is not None:
                     history_update_string += " and"
-- 
2.43.0


From 54cc47ea535d02022f0f108c3a2bdcd361dfc075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:23 +0000
Subject: [PATCH 44/58] fix: write pairs of floats with write_uvh5

---
 src/pyuvdata/utils/io/hdf5.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/utils/io/hdf5.py b/src/pyuvdata/utils/io/hdf5.py
index 88c27da..3ad3387 100644
--- a/src/pyuvdata/utils/io/hdf5.py
+++ b/src/pyuvdata/utils/io/hdf5.py
@@ -332,17 +332,18 @@ def _write_complex_astype(data, dset, indices):
     else:
         compound_dtype = [("r", "f8"), ("i", "f8")]
 
-    # make doubly sure dtype is valid; should be unless user is pathological
-    _check_complex_dtype(dtype_out)
+    if dtype_out.kind == "c":
+        # h5py presents pairs of floats as complex numbers
+        out = data.astype(dtype_out, copy=False)
+    else:
+        # make doubly sure dtype is valid; should be unless user is pathological
+        _check_complex_dtype(dtype_out)
+        out = data.view(compound_dtype).astype(dtype_out, copy=False)
     if len(dset.shape) == 3:
         # this is the future array shape
-        dset[indices[0], indices[1], indices[2]] = data.view(compound_dtype).astype(
-            dtype_out, copy=False
-        )
+        dset[indices[0], indices[1], indices[2]] = out
     else:
-        dset[indices[0], np.s_[:], indices[1], indices[2]] = data.view(
-            compound_dtype
-        ).astype(dtype_out, copy=False)
+        dset[indices[0], np.s_[:], indices[1], indices[2]] = out
 
     return
 
-- 
2.43.0


From e46225497ea17010fb024627dec6949ab51654da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:23 +0000
Subject: [PATCH 45/58] fix: keep the data of an object whose header does not
 match the file

---
 src/pyuvdata/uvdata/uvh5.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index b6b6008..82334b5 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -1586,11 +1586,12 @@ class UVH5(UVData):
         uvd_file.filename = self.filename
         uvd_file._filename.form = self._filename.form
 
-        if self != uvd_file:
-            raise AssertionError(
-                "The object metadata in memory and metadata on disk are different"
-            )
-        else:
+        try:
+            if self != uvd_file:
+                raise AssertionError(
+                    "The object metadata in memory and metadata on disk are different"
+                )
+        finally:
             # clean up after ourselves
             if replace_data:
                 self.data_array = data_array
-- 
2.43.0


From 0c90cc52bd5c078f039f287fd6f6496ac2920210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:23 +0000
Subject: [PATCH 46/58] fix: look at the polarization of reversed pairs in
 FastUVH5Meta.has_key

---
 src/pyuvdata/uvdata/uvh5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index 82334b5..2cef60e 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -386,7 +386,9 @@ class FastUVH5Meta(hdf5_utils.HDF5Meta):
 
     def has_key(self, key: tuple[int, int] | tuple[int, int, str]) -> bool:
         """Check if the file has a given antpair or antpair-pol key."""
-        if len(key) == 2 and key in self.antpairs or (key[1], key[0]) in self.antpairs:
+        if len(key) == 2 and (
+            key in self.antpairs or (key[1], key[0]) in self.antpairs
+        ):
             return True
         elif len(key) == 3 and (
             (key[:2] in self.antpairs and key[2] in self.pols)
-- 
2.43.0


From daaeb371ce2de95695ae951594937c662f0f9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:53 +0000
Subject: [PATCH 47/58] fix: compare the history as written when checking the
 header of a UVH5 file

---
 src/pyuvdata/uvdata/uvh5.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pyuvdata/uvdata/uvh5.py b/src/pyuvdata/uvdata/uvh5.py
index 2cef60e..255094b 100644
--- a/src/pyuvdata/uvdata/uvh5.py
+++ b/src/pyuvdata/uvdata/uvh5.py
@@ -1558,11 +1558,14 @@ class UVH5(UVData):
         uvd_file = UVH5()
         with h5py.File(filename, "r") as f:
             header = f["/Header"]
+            history = bytes(header["history"][()]).decode("utf8")
             uvd_file._read_header(
                 header,
                 run_check_acceptability=run_check_acceptability,
                 background_lsts=background_lsts,
             )
+        # reading may add the pyuvdata version, compare what is in the file
+        uvd_file.history = history
 
         # temporarily remove data, flag, and nsample arrays, so we only check metadata
         if self.data_array is not None:
-- 
2.43.0


From d93287e3fc244e677e0911ffb5abf34bc7219356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:32 +0000
Subject: [PATCH 48/58] fix: write and read empty extra keywords in UVFlag
 files

---
 src/pyuvdata/uvflag/uvflag.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pyuvdata/uvflag/uvflag.py b/src/pyuvdata/uvflag/uvflag.py
index 4318f9a..eb1b27b 100644
--- a/src/pyuvdata/uvflag/uvflag.py
+++ b/src/pyuvdata/uvflag/uvflag.py
@@ -3266,6 +3266,9 @@ class UVFlag(UVBase):
                             self.extra_keywords[key] = bytes(
                                 header["extra_keywords"][key][()]
                             ).decode("utf8")
+                        elif header["extra_keywords"][key].shape is None:
+                            # empty datasets stand for None
+                            self.extra_keywords[key] = None
                         else:
                             self.extra_keywords[key] = header["extra_keywords"][key][()]
                 else:
@@ -3487,6 +3490,9 @@ class UVFlag(UVBase):
                 for k in self.extra_keywords.keys():
                     if isinstance(self.extra_keywords[k], str):
                         extra_keywords[k] = np.bytes_(self.extra_keywords[k])
+                    elif self.extra_keywords[k] is None:
+                        # save as empty/null dataset
+                        extra_keywords[k] = h5py.Empty("f")
                     else:
                         extra_keywords[k] = self.extra_keywords[k]
 
-- 
2.43.0


From c16f1834b24a9319776fe8f12057d7fb2d835196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:07 +0000
Subject: [PATCH 49/58] fix: read irregular sets of spectral windows from CalH5
 files

---
 src/pyuvdata/utils/io/hdf5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/utils/io/hdf5.py b/src/pyuvdata/utils/io/hdf5.py
index 3ad3387..6904826 100644
--- a/src/pyuvdata/utils/io/hdf5.py
+++ b/src/pyuvdata/utils/io/hdf5.py
@@ -138,8 +138,8 @@ def _get_dset_shape(dset, indices):
         # check for slice object
         if isinstance(inds, slice):
             dset_shape[i] = _get_slice_len(inds, dset_shape[i])
-        # check for list
-        if isinstance(inds, list):
+        # check for list or array
+        if isinstance(inds, (list, np.ndarray)):
             # check for list of integers
             if isinstance(inds[0], (int, np.integer)):
                 dset_shape[i] = len(inds)
-- 
2.43.0


From 3b58dba042d631d6e6e562bdbe5c6b461423de68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:36 +0000
Subject: [PATCH 50/58] fix: refuse absent spectral windows in UVCal.select of
 per-channel objects

---
 src/pyuvdata/uvcal/uvcal.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/uvcal/uvcal.py b/src/pyuvdata/uvcal/uvcal.py
index 2c99115..a62c7d9 100644
--- a/src/pyuvdata/uvcal/uvcal.py
+++ b/src/pyuvdata/uvcal/uvcal.py
@@ -4116,6 +4116,14 @@ class UVCal(UVBase):
                 )
                 spw_inds = None
             else:
+                # Check and see that all requested spws are available
+                spw_check = np.isin(spws, self.spw_array)
+                if not np.all(spw_check):
+                    raise ValueError(
+                        f"SPW number {spws[np.where(~spw_check)[0][0]]} is not "
+                        "present in the spw_array"
+                    )
+
                 if not self.wide_band:
                     # Translate the spws into frequencies
                     freq_chans = utils.tools._sorted_unique_union(
@@ -4129,14 +4137,6 @@ class UVCal(UVBase):
                         history_update_string += "spectral windows"
                     n_selects += 1
 
-                    # Check and see that all requested spws are available
-                    spw_check = np.isin(spws, self.spw_array)
-                    if not np.all(spw_check):
-                        raise ValueError(
-                            f"SPW number {spws[np.where(~spw_check)[0][0]]} is not "
-                            "present in the spw_array"
-                        )
-
                     spw_inds = np.where(np.isin(self.spw_array, spws))[0]
         else:
             spw_inds = None
-- 
2.43.0


From 8009d0f7a385cebce9b4b28520211a36e2b80864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:13 +0000
Subject: [PATCH 51/58] fix: read positive channel widths from UVFITS files
 with descending frequencies

---
 src/pyuvdata/uvdata/uvfits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 6a4a483..9005c3e 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -457,7 +457,7 @@ class UVFITS(UVData):
                 # FQ table, in which case pull the info from the main table
                 self.Nfreqs = vis_hdr.pop("NAXIS4")
                 self.freq_array = fits_utils._gethduaxis(vis_hdu, 4)
-                self.channel_width = np.full(self.Nfreqs, vis_hdr.pop("CDELT4"))
+                self.channel_width = np.full(self.Nfreqs, abs(vis_hdr.pop("CDELT4")))
                 self.flex_spw_id_array = np.zeros(self.Nfreqs, dtype=int)
 
             self.polarization_array = np.int32(fits_utils._gethduaxis(vis_hdu, 3))
-- 
2.43.0


From b4f06e80ae38b9cd8b109a5e1b64fb3e25fdaade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:23 +0000
Subject: [PATCH 52/58] fix: read channels of UVFITS files with several
 spectral windows

---
 src/pyuvdata/uvdata/uvfits.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 9005c3e..4a8e763 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -248,9 +248,13 @@ class UVFITS(UVData):
             blt_frac = 1
 
         if freq_inds is not None:
-            freq_frac = len(freq_inds) * float(self.Nspws) / float(self.Nfreqs)
+            freq_frac = len(freq_inds) / float(self.Nfreqs)
+            # the file has an axis for the windows and one for the channels in each
+            nspws_file = self.Nspws
+            spw_inds, chan_inds = np.divmod(freq_inds, self.Nfreqs // self.Nspws)
         else:
             freq_frac = 1
+            nspws_file = self.Nspws
 
         if pol_inds is not None:
             pol_frac = len(pol_inds) / float(self.Npols)
@@ -286,7 +290,7 @@ class UVFITS(UVData):
                 if vis_hdu.header["NAXIS"] == 7:
                     raw_data_array = vis_hdu.data.data[blt_inds, :, :, :, :, :, :]
                     raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
+                    assert nspws_file == raw_data_array.shape[1]
                 else:
                     # in many uvfits files the spw axis is left out,
                     # here we put it back in so the dimensionality stays the same
@@ -294,14 +298,17 @@ class UVFITS(UVData):
                     raw_data_array = raw_data_array[:, 0, 0, :, :, :]
                     raw_data_array = raw_data_array[:, np.newaxis, :, :, :]
                 if freq_frac < 1:
-                    raw_data_array = raw_data_array[:, :, freq_inds, :, :]
+                    raw_data_array = raw_data_array[
+                        :, spw_inds, chan_inds, np.newaxis, :, :
+                    ].swapaxes(1, 2)
                 if pol_frac < 1:
                     raw_data_array = raw_data_array[:, :, :, pol_inds, :]
             elif freq_frac == min_frac:
                 if vis_hdu.header["NAXIS"] == 7:
-                    raw_data_array = vis_hdu.data.data[:, :, :, :, freq_inds, :, :]
-                    raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
+                    raw_data_array = vis_hdu.data.data[
+                        :, :, :, spw_inds, chan_inds, :, :
+                    ]
+                    raw_data_array = raw_data_array[:, 0, 0, np.newaxis, :, :, :]
                 else:
                     # in many uvfits files the spw axis is left out,
                     # here we put it back in so the dimensionality stays the same
@@ -317,7 +324,7 @@ class UVFITS(UVData):
                 if vis_hdu.header["NAXIS"] == 7:
                     raw_data_array = vis_hdu.data.data[:, :, :, :, :, pol_inds, :]
                     raw_data_array = raw_data_array[:, 0, 0, :, :, :, :]
-                    assert self.Nspws == raw_data_array.shape[1]
+                    assert nspws_file == raw_data_array.shape[1]
                 else:
                     # in many uvfits files the spw axis is left out,
                     # here we put it back in so the dimensionality stays the same
@@ -328,7 +335,9 @@ class UVFITS(UVData):
                 if blt_frac < 1:
                     raw_data_array = raw_data_array[blt_inds, :, :, :, :]
                 if freq_frac < 1:
-                    raw_data_array = raw_data_array[:, :, freq_inds, :, :]
+                    raw_data_array = raw_data_array[
+                        :, spw_inds, chan_inds, np.newaxis, :, :
+                    ].swapaxes(1, 2)
 
         assert len(raw_data_array.shape) == 5
 
-- 
2.43.0


From b9892ecf7f8c84ac61f4abf4f4a0bcd05a67629c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:39 +0000
Subject: [PATCH 53/58] fix: write the spectral window axis of real power beams
 in its place

The axis was inserted one place too far for real data, so that BeamFITS
files of power beams with more than one polarization were written but
could not be read.
---
 src/pyuvdata/uvbeam/beamfits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pyuvdata/uvbeam/beamfits.py b/src/pyuvdata/uvbeam/beamfits.py
index cfd1555..505ed3b 100644
--- a/src/pyuvdata/uvbeam/beamfits.py
+++ b/src/pyuvdata/uvbeam/beamfits.py
@@ -700,8 +700,8 @@ class BeamFITS(UVBeam):
                 '"efield" or "power".'.format(type=self.beam_type)
             )
 
-        # Add a third axis to the data for consistency
-        primary_data = primary_data[:, :, np.newaxis]
+        # Add a spw axis to the data for consistency
+        primary_data = np.expand_dims(primary_data, axis=-ax_nums["spw"])
 
         primary_header["CRPIX" + str(ax_nums["feed_pol"])] = 1
 
-- 
2.43.0


From a4a19b7730ae6b43ebdef5f05728d206b028a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:23:24 +0000
Subject: [PATCH 54/58] fix: pass keywords on when reading several BeamFITS
 files

The keywords were spread as positional arguments for every file but the
first, so any keyword made UVBeam.read_beamfits fail on a list.
---
 src/pyuvdata/uvbeam/uvbeam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvbeam/uvbeam.py b/src/pyuvdata/uvbeam/uvbeam.py
index 8a0f510..a78f45a 100644
--- a/src/pyuvdata/uvbeam/uvbeam.py
+++ b/src/pyuvdata/uvbeam/uvbeam.py
@@ -3353,7 +3353,7 @@ class UVBeam(UVBase):
             if len(filename) > 1:
                 for f in filename[1:]:
                     beam2 = UVBeam()
-                    beam2.read_beamfits(f, *kwargs)
+                    beam2.read_beamfits(f, **kwargs)
                     self += beam2
                 del beam2
         else:
-- 
2.43.0


From 6e39728dfd33a8f262cf4a1d2dd393247e88a657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:19 +0000
Subject: [PATCH 55/58] fix: write descending frequencies to CalFITS files

The increment of the frequency axis was the (positive) channel width, so
that gains with descending frequencies were read back with ascending
ones.
---
 src/pyuvdata/uvcal/calfits.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index b70a649..96809e0 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -112,7 +112,11 @@ class CALFITS(UVCal):
                 )
                 delta_freq_array = rounded_spacing[0]
             else:
-                delta_freq_array = np.median(self.channel_width)
+                # the spacing is negative if the frequencies are descending
+                delta_freq_array = np.copysign(
+                    np.median(self.channel_width),
+                    self.freq_array[1] - self.freq_array[0],
+                )
         else:
             if self.channel_width is not None:
                 delta_freq_array = self.channel_width[0]
-- 
2.43.0


From da8f6f99c6936222f90fb537cac93af492c03791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:53 +0000
Subject: [PATCH 56/58] fix: keep the channel width of delay CalFITS files out
 of extra_keywords

The writer always writes CHWIDTH, the reader only took it for gains, so
that a delay object came back with an extra keyword.
---
 src/pyuvdata/uvcal/calfits.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pyuvdata/uvcal/calfits.py b/src/pyuvdata/uvcal/calfits.py
index 96809e0..dc8190d 100644
--- a/src/pyuvdata/uvcal/calfits.py
+++ b/src/pyuvdata/uvcal/calfits.py
@@ -683,6 +683,8 @@ class CALFITS(UVCal):
             if self.cal_type == "delay":
                 self._set_delay()
                 self.Nfreqs = 1
+                # delays have no channels, this is only a placeholder
+                hdr.pop("CHWIDTH", None)
 
                 sechdu = fname[hdunames["FLAGS"]]
                 assert self.Nspws == 1, (
-- 
2.43.0


From 1e1eeb8ce610604e6b1c2d6fba8c460b3052d615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:12 +0000
Subject: [PATCH 57/58] fix: read ranges of BeamFITS axes that are descending

The ends of az_range, za_range and freq_range were looked up as if the
axis were ascending, so that on a descending axis everything was
returned, and a range between two entries gave an empty beam.
---
 src/pyuvdata/uvbeam/beamfits.py | 34 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/pyuvdata/uvbeam/beamfits.py b/src/pyuvdata/uvbeam/beamfits.py
index 505ed3b..6a121d5 100644
--- a/src/pyuvdata/uvbeam/beamfits.py
+++ b/src/pyuvdata/uvbeam/beamfits.py
@@ -178,12 +178,12 @@ class BeamFITS(UVBeam):
                     )
 
                 if az_range is not None:
-                    azmin = np.where(self.axis1_array >= np.deg2rad(az_range[0]))[0][0]
-                    azmax = (
-                        np.where(self.axis1_array <= np.deg2rad(az_range[1]))[0][-1] + 1
-                    )
-                    self.Naxes1 = azmax - azmin
-                    az_mask = slice(azmin, azmax)
+                    az_inds = np.nonzero(
+                        (self.axis1_array >= np.deg2rad(az_range[0]))
+                        & (self.axis1_array <= np.deg2rad(az_range[1]))
+                    )[0]
+                    az_mask = slice(az_inds[0], az_inds[-1] + 1)
+                    self.Naxes1 = az_inds.size
                     self.axis1_array = self.axis1_array[az_mask]
 
                 axis2_units = primary_header.pop(
@@ -197,12 +197,12 @@ class BeamFITS(UVBeam):
                     )
 
                 if za_range is not None:
-                    zamin = np.where(self.axis2_array >= np.deg2rad(za_range[0]))[0][0]
-                    zamax = (
-                        np.where(self.axis2_array <= np.deg2rad(za_range[1]))[0][-1] + 1
-                    )
-                    self.Naxes2 = zamax - zamin
-                    za_mask = slice(zamin, zamax)
+                    za_inds = np.nonzero(
+                        (self.axis2_array >= np.deg2rad(za_range[0]))
+                        & (self.axis2_array <= np.deg2rad(za_range[1]))
+                    )[0]
+                    za_mask = slice(za_inds[0], za_inds[-1] + 1)
+                    self.Naxes2 = za_inds.size
                     self.axis2_array = self.axis2_array[za_mask]
 
             n_efield_dims = max(ax_nums[key] for key in ax_nums)
@@ -256,10 +256,12 @@ class BeamFITS(UVBeam):
                     raise ValueError("Frequency units not recognized.")
 
             if freq_range is not None:
-                fmin = np.where(self.freq_array >= freq_range[0])[0][0]
-                fmax = np.where(self.freq_array <= freq_range[1])[0][-1] + 1
-                freq_mask = slice(fmin, fmax)
-                self.Nfreqs = fmax - fmin
+                freq_inds = np.nonzero(
+                    (self.freq_array >= freq_range[0])
+                    & (self.freq_array <= freq_range[1])
+                )[0]
+                freq_mask = slice(freq_inds[0], freq_inds[-1] + 1)
+                self.Nfreqs = freq_inds.size
                 self.freq_array = self.freq_array[freq_mask]
 
             if az_range is not None:
-- 
2.43.0


From 8af53c3c53ba096cc9d4abc897b52ae81a773299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:59 +0000
Subject: [PATCH 58/58] fix: write UVFITS spectral windows in the order of
 their channels

The frequencies of the windows were written in the order of spw_array and
the data in the order of the channels. The sum of two objects can have
these in different orders (e.g. adding window 0 to window 1), and the
frequencies of the windows were then exchanged in the file.
---
 src/pyuvdata/uvdata/uvfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pyuvdata/uvdata/uvfits.py b/src/pyuvdata/uvdata/uvfits.py
index 4a8e763..714b5ae 100644
--- a/src/pyuvdata/uvdata/uvfits.py
+++ b/src/pyuvdata/uvdata/uvfits.py
@@ -916,7 +916,9 @@ class UVFITS(UVData):
         nchan_list = []
         start_freq_array = []
         delta_freq_array = []
-        for idx in self.spw_array:
+        # the data are written in channel order, which can differ from spw_array
+        first_chans = np.unique(self.flex_spw_id_array, return_index=True)[1]
+        for idx in self.flex_spw_id_array[np.sort(first_chans)]:
             chan_mask = self.flex_spw_id_array == idx
             nchan_list += [np.sum(chan_mask)]
             start_freq_array += [self.freq_array[chan_mask][0]]
-- 
2.43.0

