From 66095ae4ffacdd49d9fb81fbb7268b307b282827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 01/44] fix: clock columns in order when the traps are not
 emptied between them

The columns were shared out between the OpenMP threads, each with its own copy
of the traps, so that with empty_traps_between_columns=false the result depended
on the number of threads.
---
 src/cti.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 84931b4..cca0f6d 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -311,7 +311,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
     //print_array_2D((int)roe->store_trap_states_matrix, n_active_rows);
     // Loop over:
     //   Columns > Express passes > Rows > Clock-sequence steps > Pixel phases
-    #pragma omp parallel for private(column_index, row_index, row_read, row_write, n_free_electrons, \
+    // (In order, on a single thread, if the traps are not emptied between columns)
+    #pragma omp parallel for if(roe->empty_traps_between_columns) \
+                             private(column_index, row_index, row_read, row_write, n_free_electrons, \
 				     n_electrons_released_and_captured, express_multiplier, roe_step_phase) \
                              firstprivate(trap_manager_manager)
     for (unsigned int i_column = 0; i_column < n_active_columns; i_column++) {
-- 
2.43.0


From 74f5c7bf6809df6a230fc658e2aca1273de908c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:02 +0000
Subject: [PATCH 02/44] fix: do not access pixels beyond the first and last
 rows

With several phases, charge is captured from or released to the neighbouring
pixels, which do not exist at the edges of the image.
---
 src/cti.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index cca0f6d..7f49580 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -364,6 +364,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_read = row_index +
                                        roe_step_phase->capture_from_which_pixels[i];
 
+                            // There is no charge beyond the edges of the image
+                            if (row_read >= n_rows) continue;
+
                             n_free_electrons += image[row_read][column_index];
                         }
 
@@ -414,6 +417,9 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             row_write =
                                 row_index + roe_step_phase->release_to_which_pixels[i];
 
+                            // Charge beyond the edges of the image is not recorded
+                            if (row_write >= n_rows) continue;
+
                             image[row_write][column_index] +=
                                 n_electrons_released_and_captured * express_multiplier *
                                 roe_step_phase->release_fraction_to_pixels[i];
-- 
2.43.0


From 8eb5f4eb2cd99582f1e66babf6b2dd9dcf1f6241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:46 +0000
Subject: [PATCH 03/44] fix: track enough watermarks for repeated trap pumping

The same traps see every pump, but room was made for a single one, so that
n_pumps > 1 wrote beyond the end of the watermark arrays.
---
 src/cti.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cti.cpp b/src/cti.cpp
index 7f49580..3864e5f 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -114,6 +114,10 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
         // need to be tracked if the traps are never reset
         max_n_transfers *= n_columns;
     }
+    if (roe->type == roe_type_trap_pumping) {
+        // The same traps keep their contents from one pump to the next
+        max_n_transfers *= roe->n_express_passes;
+    }
 
     // Set empty arrays for nullptr trap lists
     std::valarray<TrapInstantCapture> no_traps_ic = {};
-- 
2.43.0


From bf02bc28ed7fd220c7582ad6d9dd885d92312853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:20 +0000
Subject: [PATCH 04/44] fix: count prescan transfers when sizing the watermark
 arrays

---
 src/cti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 3864e5f..f523857 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -89,7 +89,7 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
     // Number of active rows and columns
     unsigned int n_active_rows = row_stop - row_start;
     unsigned int n_active_columns = column_stop - column_start;
-    unsigned int max_n_transfers = n_active_rows + row_offset;
+    unsigned int max_n_transfers = n_active_rows + row_offset + roe->prescan_offset;
     print_v(
         1, "%d column(s) [%d to %d], %d row(s) [%d to %d] \n", n_active_columns,
         column_start, column_stop, n_active_rows, row_start, row_stop);
-- 
2.43.0


From 8811542091d3975348813ad2782568f8ed5dedee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 05/44] fix: express matrix when one fewer pass than rows is
 asked for with empty_traps_for_first_transfers

---
 src/roe.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index b9cc7bd..d34753c 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -248,7 +248,9 @@ void ROE::set_express_matrix_from_rows_and_express(
 
     // Temporarily ignore the first pixel-to-pixel transfer, if it is to be
     // handled differently than the rest
-    if ((empty_traps_for_first_transfers) && (express < n_rows)) n_transfers--;
+    bool separate_first_transfers =
+        (empty_traps_for_first_transfers) && (express < n_rows);
+    if (separate_first_transfers) n_transfers--;
 
     // Initialise an array with enough pixels to contain the supposed image,
     // including offset
@@ -280,7 +282,8 @@ void ROE::set_express_matrix_from_rows_and_express(
     // Add an extra (first) transfer for every pixel, the effect of which
     // will only ever be counted once, because it is physically different
     // from the other transfers (it sees only empty traps)
-    if ((empty_traps_for_first_transfers) && (express >= n_transfers)) {
+    if ((empty_traps_for_first_transfers) && (!separate_first_transfers) &&
+        (express >= n_transfers)) {
         // Reverse order of operations, so that first transfer always sees empty traps
         std::valarray<double> express_matrix_full = tmp_express_matrix;
         for (int i = 0; i < express; i++) {
@@ -291,7 +294,7 @@ void ROE::set_express_matrix_from_rows_and_express(
         }
         n_express_passes = express;
         
-    } else if ((empty_traps_for_first_transfers) && (express < n_transfers)) {
+    } else if (empty_traps_for_first_transfers) {
         // Create a new matrix for the full number of transfers
         // (this will eventually overwrite tmp_express_matrix, but that is first used)
         n_transfers++;
-- 
2.43.0


From f84e64ecdc8cc38df433aef5e76afeab8df16888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 06/44] fix: trap pumping integer express multipliers with
 separate first transfers

---
 src/roe.cpp | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index d34753c..f1a7b8e 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -891,16 +891,11 @@ void ROETrapPumping::set_express_matrix_from_rows_and_express(
 
         n_express_passes = express + 1;
         tmp_col.resize(n_express_passes);
-        // Set the non-zero elements, which won't include the final entry for
+        // Set the non-zero elements, which may be fewer than the passes for
         // mismatched integer multipliers
-        if ((use_integer_express_matrix) && (n_pumps % express != 0)) {
-            // (Using slice here doesn't compile on mac for some odd reason...)
-            for (int i = 0; i < n_express_passes - 1; i++) tmp_col[i] = tmp_col_2[i];
-
-            // Put back the final zero
-            tmp_col[n_express_passes - 1] = 0.0;
-        } else
-            tmp_col = tmp_col_2;
+        // (Using slice here doesn't compile on mac for some odd reason...)
+        for (int i = 0; i < n_express_passes; i++)
+            tmp_col[i] = (i < (int)tmp_col_2.size()) ? tmp_col_2[i] : 0.0;
     }
 
     express_matrix.resize(n_rows * n_express_passes);
-- 
2.43.0


From 760ff76c2b659adc6f5e2c8f1d6db0375d0325ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:02 +0000
Subject: [PATCH 07/44] fix: return the charge slow-capture traps release below
 the well notch

---
 src/trap_managers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index a3a3362..cc5b380 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1304,7 +1304,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
     // Capture and release electrons below the cloud
     // ========
     // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
@@ -2062,7 +2062,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
     // Capture and release electrons below the cloud
     // ========
     // No capture
-    if (cloud_fractional_volume == 0.0) return 0.0;
+    if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
     if (n_released > 0.0) {
-- 
2.43.0


From ebf45c2da7353541d973b7b77b7716ac99ba1d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 08/44] fix: slow-capture watermarks when released charge
 brings the cloud above all of them

---
 src/trap_managers.cpp | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index cc5b380..90e106b 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1307,7 +1307,24 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
     if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
-    if (n_released > 0.0) {
+    if ((n_released > 0.0) &&
+        (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks)) {
+        // The released charge has brought the cloud above all watermarks
+        double previous_total_volume = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud] =
+            cloud_fractional_volume - previous_total_volume;
+        watermark_fills[std::slice(i_wmk_above_cloud * n_traps, n_traps, 1)] =
+            empty_watermark;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+        i_wmk_above_cloud++;
+    } else if (n_released > 0.0) {
         // Original total volume of the watermark
         double previous_total_volume = 0.0;
         for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
@@ -2065,7 +2082,24 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
     if (cloud_fractional_volume == 0.0) return n_released;
 
     // Add a new watermark at the new cloud height
-    if (n_released > 0.0) {
+    if ((n_released > 0.0) &&
+        (i_wmk_above_cloud == i_first_active_wmk + n_active_watermarks)) {
+        // The released charge has brought the cloud above all watermarks
+        double previous_total_volume = 0.0;
+        for (int i_wmk = i_first_active_wmk; i_wmk < i_wmk_above_cloud; i_wmk++) {
+            previous_total_volume += watermark_volumes[i_wmk];
+        }
+
+        // New watermark
+        watermark_volumes[i_wmk_above_cloud] =
+            cloud_fractional_volume - previous_total_volume;
+        watermark_fills[std::slice(i_wmk_above_cloud * n_traps, n_traps, 1)] =
+            empty_watermark;
+
+        // Update count of active watermarks
+        n_active_watermarks++;
+        i_wmk_above_cloud++;
+    } else if (n_released > 0.0) {
         // Original total volume of the watermark
         double previous_total_volume = 0.0;
         for (int i_wmk = i_first_active_wmk; i_wmk <= i_wmk_above_cloud; i_wmk++) {
-- 
2.43.0


From 2b2970e5ad3b3ffa2c9350781ff83333579a392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 09/44] fix: clear the watermarks that pruning frees

---
 src/trap_managers.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 90e106b..34a2e41 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -448,6 +448,14 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
     }
     n_active_watermarks -= n_watermarks_pruned;
 
+    // Clear the freed watermarks, ready for new ones
+    for (int i_wmk = i_first_active_wmk + n_active_watermarks;
+         i_wmk < i_first_active_wmk + n_active_watermarks + n_watermarks_pruned;
+         i_wmk++) {
+        watermark_volumes[i_wmk] = 0.0;
+        watermark_fills[std::slice(i_wmk * n_traps, n_traps, 1)] = empty_watermark;
+    }
+
     // Count the total number of electrons in each watermark
     print_v(3,"\n\n Fill fractions after prune (first %d n %d)\n",i_first_active_wmk, n_active_watermarks);
     
-- 
2.43.0


From 11b635ee0dcf86d56afe8b32f435374901ca2703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:18 +0000
Subject: [PATCH 10/44] fix: scarce capture into a new lowest watermark starts
 from what its traps held

---
 src/trap_managers.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 34a2e41..1b68538 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -840,9 +840,9 @@ void TrapManagerInstantCapture::update_watermarks_capture_not_enough(
         watermark_volumes[i_first_active_wmk] = cloud_fractional_volume - zeroth_watermark;
         watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
             (std::valarray<double>)watermark_fills[std::slice(
-                i_first_active_wmk * n_traps, n_traps, 1)] *
+                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
                 (1.0 - enough) +
-            enough * trap_densities; // is this wrong? the new watermark level should be created full
+            enough * trap_densities; // part-way to full from what these traps held
 
         // Update fractional volume of the partially overwritten watermark above
         watermark_volumes[i_first_active_wmk + 1] -= (cloud_fractional_volume - zeroth_watermark);
@@ -1715,7 +1715,7 @@ void TrapManagerInstantCaptureContinuum::update_watermarks_capture_not_enough(
         watermark_volumes[i_first_active_wmk] = cloud_fractional_volume;
         watermark_fills[std::slice(i_first_active_wmk * n_traps, n_traps, 1)] =
             (std::valarray<double>)watermark_fills[std::slice(
-                i_first_active_wmk * n_traps, n_traps, 1)] *
+                (i_first_active_wmk + 1) * n_traps, n_traps, 1)] *
                 (1.0 - enough) +
             enough * trap_densities;
 
-- 
2.43.0


From 87d211bcf0f55bbef1a1756a39d0dc46c0680a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 11/44] fix: continuum trap tables for a single transfer

---
 src/trap_managers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 1b68538..eb97cdc 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1479,7 +1479,8 @@ TrapManagerInstantCaptureContinuum::TrapManagerInstantCaptureContinuum(
     }
 
     time_min = dwell_time;
-    time_max = max_n_transfers * dwell_time;
+    // (The table needs a range of times, even for a single transfer)
+    time_max = std::max(max_n_transfers, 2) * dwell_time;
     n_intp = 1000;
 }
 
-- 
2.43.0


From 5e244a56842ecf26bb8e616a14cd5a526a234f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 12/44] fix: instantly capturing slow-capture traps stay full

---
 src/trap_managers.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index eb97cdc..fa407ad 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1138,8 +1138,12 @@ void TrapManagerSlowCapture::set_fill_probabilities() {
                 traps[i_trap].capture_rate * exponential_factor;
 
         // Resulting fill fraction for filled traps (Eqn. 21)
-        fill_probabilities_from_full[i_trap] =
-            1.0 - traps[i_trap].release_rate * exponential_factor;
+        if (traps[i_trap].capture_rate == 0.0)
+            // Instant re-capture
+            fill_probabilities_from_full[i_trap] = 1.0;
+        else
+            fill_probabilities_from_full[i_trap] =
+                1.0 - traps[i_trap].release_rate * exponential_factor;
 
         // Resulting empty fraction from only release
         empty_probabilities_from_release[i_trap] =
-- 
2.43.0


From 94dcb54f973f477cbe7fd0a2e3a7da474c498710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 13/44] fix: exposed traps in a watermark without volume

---
 src/traps.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/traps.cpp b/src/traps.cpp
index d045d18..2b95a3b 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -117,6 +117,10 @@ double TrapInstantCapture::fraction_traps_exposed_per_fractional_volume(
         return 1.0;
     else if (fractional_volume_high <= fractional_volume_none_exposed)
         return 0.0;
+    else if (fractional_volume_high <= fractional_volume_low)
+        // No volume, so the fraction at this point
+        return (fractional_volume_low - fractional_volume_none_exposed) /
+               (fractional_volume_full_exposed - fractional_volume_none_exposed);
 
     double fraction;
     // Integrate f(v) from v_l to v_h
-- 
2.43.0


From 5577bcc9873f3c0b8cbedbe20d7321276729e81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 14/44] fix: verbose output without instant-capture traps

---
 src/cti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index f523857..9b157b8 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -409,7 +409,7 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
                             2, "n_electrons_released_and_captured  %g \n",
                             n_electrons_released_and_captured);
 
-                        print_v(
+                        if (trap_manager_manager.n_traps_ic > 0) print_v(
                            2, "n_trapped_electrons_from_watermarks  %g \n",
                             trap_manager_manager.trap_managers_ic[i_phase].n_trapped_electrons_from_watermarks(trap_manager_manager.trap_managers_ic[i_phase].watermark_volumes,trap_manager_manager.trap_managers_ic[i_phase].watermark_fills));
 
-- 
2.43.0


From 32b4fb269d0a01cee7897aadcb684be42453cf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:07 +0000
Subject: [PATCH 15/44] fix: elapsed time across a whole second

---
 src/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index cd4881d..d2239f1 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -305,7 +305,7 @@ double gettimelapsed(struct timeval start, struct timeval end) {
 
     if (microseconds < 0.0) {
         seconds -= 1.0;
-        microseconds = 1e6 - microseconds;
+        microseconds = 1e6 + microseconds;
     }
 
     microseconds /= 1e6;
-- 
2.43.0


From ec367c8c8bd4da2d8675ab98752fea58a2659560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 16/44] fix: assigning a ROE no longer overwrites the dwell
 times of other objects

---
 include/roe.hpp | 4 ++--
 src/roe.cpp     | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/roe.hpp b/include/roe.hpp
index 3afc424..6d22582 100644
--- a/include/roe.hpp
+++ b/include/roe.hpp
@@ -44,7 +44,7 @@ class ROE {
 
     ROE& operator=(const ROE& roe);
 
-    std::valarray<double>& dwell_times;
+    std::valarray<double> dwell_times;
     int prescan_offset;
     int overscan_start;
     bool empty_traps_between_columns;
@@ -60,7 +60,7 @@ class ROE {
     int n_steps;
     int n_phases;
     int n_express_passes;
-    int n_pumps;
+    int n_pumps = 1;
 
     virtual void set_express_matrix_from_rows_and_express(
         int n_rows, int express = 0, int window_offset = 0);
diff --git a/src/roe.cpp b/src/roe.cpp
index f1a7b8e..ccbfd6b 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -174,6 +174,7 @@ ROE& ROE::operator=(const ROE& roe) {
     type = roe.type;
     n_steps = roe.n_steps;
     n_phases = roe.n_phases;
+    n_pumps = roe.n_pumps;
     return *this;
 }
 
-- 
2.43.0


From 51976fdd96f5411d5283c77d2c0acc166db26def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 17/44] fix: report failures to write or read image files

---
 src/util.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index d2239f1..a690349 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -220,6 +220,8 @@ std::valarray<std::valarray<double> > load_image_from_txt(const char* filename)
     int n_columns;
     int c = fscanf(f, "%d %d", &n_rows, &n_columns);
     if (c != 2) error("Failed to read n_rows, n_columns '%s'", filename);
+    if ((n_rows < 0) || (n_columns < 0))
+        error("Invalid n_rows, n_columns [%d, %d] '%s'", n_rows, n_columns, filename);
 
     // Load image data
     std::valarray<std::valarray<double> > image(
@@ -232,6 +234,9 @@ std::valarray<std::valarray<double> > load_image_from_txt(const char* filename)
         }
     }
 
+    // A failed read may have cut a number short
+    if (ferror(f)) error("Failed to read image '%s'", filename);
+
     fclose(f);
 
     return image;
@@ -262,7 +267,7 @@ void save_image_to_txt(
 
     // Save image dimensions
     int n_rows = image.size();
-    int n_columns = image[0].size();
+    int n_columns = (n_rows > 0) ? image[0].size() : 0;
     fprintf(f, "%d %d \n", n_rows, n_columns);
 
     // Save image data
@@ -273,7 +278,9 @@ void save_image_to_txt(
         fprintf(f, "\n");
     }
 
-    fclose(f);
+    // Check that everything was actually written
+    bool write_failed = ferror(f);
+    if ((fclose(f) != 0) || (write_failed)) error("Failed to write file '%s'", filename);
 
     return;
 }
-- 
2.43.0


From 99426cb5825fe243bfae2d71c6359e4360464e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 18/44] fix: free the integration workspaces and root finders
 of continuum traps

---
 src/traps.cpp | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/traps.cpp b/src/traps.cpp
index 2b95a3b..53f413e 100644
--- a/src/traps.cpp
+++ b/src/traps.cpp
@@ -273,7 +273,8 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
     const double epsrel = 1e-6;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
-    if (!workspace) {
+    const bool own_workspace = !workspace;
+    if (own_workspace) {
         workspace = gsl_integration_workspace_alloc(limit);
     }
     struct TrICCo_ff_from_te_params params = {
@@ -285,6 +286,7 @@ double TrapInstantCaptureContinuum::fill_fraction_from_time_elapsed(
     // Integrate F.function from min to max
     int status = gsl_integration_qag(
         &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
+    if (own_workspace) gsl_integration_workspace_free(workspace);
 
     if (status) error("Integration failed, status %d", status);
 
@@ -344,7 +346,8 @@ double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
         return 0.0;
 
     // Prep for the integration
-    if (!workspace) {
+    const bool own_workspace = !workspace;
+    if (own_workspace) {
         const int limit = 100;
         workspace = gsl_integration_workspace_alloc(limit);
     }
@@ -380,6 +383,9 @@ double TrapInstantCaptureContinuum::time_elapsed_from_fill_fraction(
         status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
     } while (status == GSL_CONTINUE && iter < max_iter);
 
+    gsl_root_fsolver_free(s);
+    if (own_workspace) gsl_integration_workspace_free(workspace);
+
     return root;
 }
 
@@ -434,6 +440,8 @@ void TrapInstantCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
         time_i = exp(log(time_max) - i * d_log_time);
         fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
     }
+
+    gsl_integration_workspace_free(workspace);
 }
 
 /*
@@ -604,7 +612,8 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
     const double epsrel = 1e-6;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
-    if (!workspace) {
+    const bool own_workspace = !workspace;
+    if (own_workspace) {
         workspace = gsl_integration_workspace_alloc(limit);
     }
     struct TrSCCo_ff_from_te_params params = {
@@ -616,6 +625,7 @@ double TrapSlowCaptureContinuum::fill_fraction_from_time_elapsed(
     // Integrate F.function from min to max
     int status = gsl_integration_qag(
         &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
+    if (own_workspace) gsl_integration_workspace_free(workspace);
 
     if (status) error("Integration failed, status %d", status);
 
@@ -650,7 +660,8 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
         return 0.0;
 
     // Prep for the integration
-    if (!workspace) {
+    const bool own_workspace = !workspace;
+    if (own_workspace) {
         const int limit = 100;
         workspace = gsl_integration_workspace_alloc(limit);
     }
@@ -686,6 +697,9 @@ double TrapSlowCaptureContinuum::time_elapsed_from_fill_fraction(
         status = gsl_root_test_interval(x_lo, x_hi, epsabs, epsrel);
     } while (status == GSL_CONTINUE && iter < max_iter);
 
+    gsl_root_fsolver_free(s);
+    if (own_workspace) gsl_integration_workspace_free(workspace);
+
     return root;
 }
 
@@ -714,6 +728,8 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_and_time_elapsed_tables(
         time_i = exp(log(time_max) - i * d_log_time);
         fill_fraction_table[i] = fill_fraction_from_time_elapsed(time_i, workspace);
     }
+
+    gsl_integration_workspace_free(workspace);
 }
 
 /*
@@ -864,7 +880,8 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     const double epsrel = 1e-6;
     const int limit = 100;
     const int key = GSL_INTEG_GAUSS51;
-    if (!workspace) {
+    const bool own_workspace = !workspace;
+    if (own_workspace) {
         workspace = gsl_integration_workspace_alloc(limit);
     }
     struct TrSCCo_ff_after_sc_params params = {
@@ -877,6 +894,7 @@ double TrapSlowCaptureContinuum::fill_fraction_after_slow_capture(
     // Integrate F.function from min to max
     int status = gsl_integration_qag(
         &F, min, max, epsabs, epsrel, limit, key, workspace, &result, &error);
+    if (own_workspace) gsl_integration_workspace_free(workspace);
 
     if (status) error("Integration failed, status %d", status);
 
@@ -939,6 +957,8 @@ void TrapSlowCaptureContinuum::prep_fill_fraction_after_slow_capture_tables(
         fill_fraction_capture_table[i] =
             fill_fraction_after_slow_capture(time_i, dwell_time, workspace);
     }
+
+    gsl_integration_workspace_free(workspace);
 }
 
 /*
-- 
2.43.0


From b4f69bb9c8bba5e43dd63309fa5cef1706f35ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 19/44] fix: no debugging output from the read-noise model

---
 src/read_noise.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/read_noise.cpp b/src/read_noise.cpp
index 9e0b9fa..24b8f7a 100644
--- a/src/read_noise.cpp
+++ b/src/read_noise.cpp
@@ -16,8 +16,6 @@ void determine_read_noise_model(const double* imageIn, const double* imageOut, c
   double readNoiseAmp2 = SQUARE(readNoiseAmp);
 
     int idx;
-    print_v(1, "hello");
-    cout << "Hello World!";
     
     for (int i = 0; i < rows * cols; i++) {
         dval0[i] = imageIn[i] - imageOut[i];
-- 
2.43.0


From 54b4645d33855ec03a4e4549912c2b29284ce735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 20/44] fix: read-noise model when out of memory

---
 src/read_noise.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/read_noise.cpp b/src/read_noise.cpp
index 24b8f7a..797a0e6 100644
--- a/src/read_noise.cpp
+++ b/src/read_noise.cpp
@@ -1,6 +1,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <math.h>
+#include <new>
 #include "util.hpp"
 #include <iostream>
 using namespace std;
@@ -11,6 +12,7 @@ void determine_read_noise_model(const double* imageIn, const double* imageOut, c
 
   double* dval0 = output;  // using already allocated output buffer to temporarily store the results to avoid allocating more memory (safe as long as we do not modify output before storing dval0 there and not use dval0 after modifying output for the first time)
   double* dval9 = (double*)malloc(rows * cols * sizeof(double));
+  if (!dval9 && rows * cols > 0) throw bad_alloc();
     
   double mod_clip = readNoiseAmp * readNoiseAmpFraction;
   double readNoiseAmp2 = SQUARE(readNoiseAmp);
-- 
2.43.0


From 824ae5f1e007a4985ef4e232a7fbc9e1a6b8ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:25 +0000
Subject: [PATCH 21/44] fix: read-noise model of images with a single row or
 column

---
 src/read_noise.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/read_noise.cpp b/src/read_noise.cpp
index 797a0e6..ffeec77 100644
--- a/src/read_noise.cpp
+++ b/src/read_noise.cpp
@@ -25,6 +25,21 @@ void determine_read_noise_model(const double* imageIn, const double* imageOut, c
     }    
     
     // get the dval9 average
+    if (rows < 2 || cols < 2) {
+        // a single row or column: average over whichever neighbours exist
+        for (int i = 0; i < rows * cols; i++) {
+            int n = 1;
+            if (i > 0) {
+                dval9[i] += dval0[i - 1];
+                n++;
+            }
+            if (i < rows * cols - 1) {
+                dval9[i] += dval0[i + 1];
+                n++;
+            }
+            dval9[i] /= n;
+        }
+    } else {
     // inner part
     for (int i = 1; i < rows - 1; i++) {
 #pragma omp parallel for private(idx)
@@ -104,6 +119,7 @@ void determine_read_noise_model(const double* imageIn, const double* imageOut, c
     dval9[idx] += dval0[idx - cols];  // comparison with top-central neighbour
     dval9[idx] += dval0[idx - cols - 1];  // comparison with top-right neighbour
     dval9[idx] /= 4.0;
+    }
 
 #pragma omp parallel for shared(output, dval0, dval9)
     for (int i = 0; i < cols * rows; i++) {
-- 
2.43.0


From 130fd46568c18b8b9fac8ffc8598f8130785216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:51 +0000
Subject: [PATCH 22/44] fix: charge injection without any transfers and integer
 express multipliers

---
 src/roe.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index ccbfd6b..62665fd 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -673,7 +673,8 @@ void ROEChargeInjection::set_express_matrix_from_rows_and_express(
     std::valarray<double> tmp_express_matrix(max_multiplier, express * n_rows);
 
     // Adjust integer multipliers to correct the total number of transfers
-    if ((use_integer_express_matrix) && (n_transfers % express != 0)) {
+    if ((use_integer_express_matrix) && (express > 0) &&
+        (n_transfers % express != 0)) {
         double current_n_transfers;
         double reduced_multiplier;
 
-- 
2.43.0


From b22ff49eb0e2873cde4bd5de70153dea0a9dd6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 23/44] fix: slow capture up to the cloud height despite
 rounding of the watermark volumes

---
 src/trap_managers.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index fa407ad..0aebc32 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1223,6 +1223,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud above all current watermarks
@@ -1238,6 +1239,7 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud between or below current watermarks
@@ -1306,11 +1308,14 @@ double TrapManagerSlowCapture::n_electrons_released_and_captured(
         n_released += frac_released_this_wmk * watermark_volumes[i_wmk];
     }
 
-    // Update the electron cloud
-    n_free_electrons += n_released;
-    cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    // Update the electron cloud (the new watermark already reaches an unchanged
+    // cloud, whose volume may differ from the sum of the watermarks by rounding)
+    if (n_released > 0.0) {
+        n_free_electrons += n_released;
+        cloud_fractional_volume =
+            ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    }
 
     // ========
     // Capture and release electrons below the cloud
@@ -1994,6 +1999,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud above all current watermarks
@@ -2009,6 +2015,7 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
 
             // Update count of active watermarks
             n_active_watermarks++;
+            i_wmk_above_cloud++;
         }
 
         // Cloud between or below current watermarks
@@ -2082,11 +2089,14 @@ double TrapManagerSlowCaptureContinuum::n_electrons_released_and_captured(
         n_released += n_released_this_wmk * watermark_volumes[i_wmk];
     }
 
-    // Update the electron cloud
-    n_free_electrons += n_released;
-    cloud_fractional_volume =
-        ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
-    i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    // Update the electron cloud (the new watermark already reaches an unchanged
+    // cloud, whose volume may differ from the sum of the watermarks by rounding)
+    if (n_released > 0.0) {
+        n_free_electrons += n_released;
+        cloud_fractional_volume =
+            ccd_phase.cloud_fractional_volume_from_electrons(n_free_electrons);
+        i_wmk_above_cloud = watermark_index_above_cloud(cloud_fractional_volume);
+    }
 
     // ========
     // Capture and release electrons below the cloud
-- 
2.43.0


From 2165181a6d4fb0e13f8eb80af2e370e5f657a17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:36 +0000
Subject: [PATCH 24/44] fix: empty clouds that reach no traps

With a non-zero first electron fill, an empty cloud can meet traps that
capture nothing, where the available fraction became 0/0.
---
 src/trap_managers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 0aebc32..c99cf87 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1004,7 +1004,8 @@ double TrapManagerInstantCapture::n_electrons_captured(double n_free_electrons)
     // Would be really nice to do this including the express multiplier.
     // That would also prevent image pixels from changing sign when zeroth_watermark<0.
     //
-    double enough = abs(n_free_electrons / n_captured);
+    // (Nothing to capture is always enough, including for an empty cloud)
+    double enough = (n_captured == 0.0) ? 1.0 : abs(n_free_electrons / n_captured);
     //print_v(0,"enough %g %g %g\n", enough, n_free_electrons, n_captured);
 
     // Normal full capture
-- 
2.43.0


From 975801e55b7e0428b3be205eed041cfe774923fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:07 +0000
Subject: [PATCH 25/44] fix: empty clouds that reach no continuum traps

As for instant-capture traps, 0/0 when nothing is captured by an empty
cloud with a non-zero first electron fill.
---
 src/trap_managers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index c99cf87..f1fad4a 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -1855,7 +1855,8 @@ double TrapManagerInstantCaptureContinuum::n_electrons_captured(
     // Update the watermarks
     // ========
     // Check enough available electrons to capture
-    double enough = n_free_electrons / n_captured;
+    // (Nothing to capture is always enough, including for an empty cloud)
+    double enough = (n_captured == 0.0) ? 1.0 : n_free_electrons / n_captured;
 
     // Normal full capture
     if (enough >= 1.0) {
-- 
2.43.0


From 8698086476969481123ef2a53cf83e8a95c61b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:07 +0000
Subject: [PATCH 26/44] fix: no pruning into a watermark without electrons

Rounding can leave a tiny negative watermark just above one of no volume,
which divided by its zero electrons.
---
 src/trap_managers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index f1fad4a..17c9a2e 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -351,7 +351,9 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
         } else {
             test_value = n_electrons_released_from_wmk_above_cloud(i_wmk_prime);
         } 
-        if (test_value < test_criterion) {
+        // (A watermark without any electrons has no traps to take more)
+        if ((test_value < test_criterion) &&
+            (n_trapped_electrons_in_watermark(i_wmk_prime - 1) > 0)) {
             
             // Push the small number of electrons down into previous watermark
             // (redistributing them between trap species by keeping fill fractions 
-- 
2.43.0


From 27345e11fb41b6248d2c9888e371554524f0376c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:23 +0000
Subject: [PATCH 27/44] fix: no pruning into a watermark less full than the
 pruned one

Pushing electrons down into a less full watermark made its volume grow by
more than the pruned one's, beyond the pixel or the watermark above, with
fills above the trap density or lost electrons.
---
 src/trap_managers.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/trap_managers.cpp b/src/trap_managers.cpp
index 17c9a2e..100210b 100644
--- a/src/trap_managers.cpp
+++ b/src/trap_managers.cpp
@@ -351,16 +351,18 @@ void TrapManagerBase::prune_watermarks(double min_n_electrons) {
         } else {
             test_value = n_electrons_released_from_wmk_above_cloud(i_wmk_prime);
         } 
-        // (A watermark without any electrons has no traps to take more)
-        if ((test_value < test_criterion) &&
-            (n_trapped_electrons_in_watermark(i_wmk_prime - 1) > 0)) {
+        // (A watermark that is less full than this one cannot take its electrons
+        // in no more than its volume)
+        double n_trapped_electrons_in_last_wmk =
+            n_trapped_electrons_in_watermark(i_wmk_prime - 1);
+        if ((test_value < test_criterion) && (n_trapped_electrons_in_last_wmk > 0) &&
+            (watermark_volumes[i_wmk_prime - 1] * n_trapped_electrons_in_this_wmk <=
+             watermark_volumes[i_wmk_prime] * n_trapped_electrons_in_last_wmk)) {
             
             // Push the small number of electrons down into previous watermark
             // (redistributing them between trap species by keeping fill fractions 
             // as before, but increasing the watermark volume. This is not ideal
             // but ensures no fill fractions ever exceed 1)
-            double n_trapped_electrons_in_last_wmk = n_trapped_electrons_in_watermark(i_wmk_prime - 1);
-                        
             double delta_volume_below = watermark_volumes[i_wmk_prime - 1] *
                 n_trapped_electrons_in_this_wmk / n_trapped_electrons_in_last_wmk;
 
-- 
2.43.0


From ad3e6cf6d912e19ec5fb20d5c1c8c4f2ed3428a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:44 +0000
Subject: [PATCH 28/44] fix: image files with malformed numbers were read as
 other numbers

---
 src/util.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index a690349..9ab932e 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -1,6 +1,7 @@
 
 #include "util.hpp"
 
+#include <ctype.h>
 #include <math.h>
 #include <stdio.h>
 #include <sys/time.h>
@@ -191,6 +192,17 @@ std::valarray<std::valarray<double> > transpose(
 // ========
 // I/O
 // ========
+/*
+    Whether the number just read from the file is followed by white space or the
+    end of the file, i.e. was not only the first part of something else.
+*/
+static bool at_end_of_number(FILE* f) {
+    int next = fgetc(f);
+    if (next == EOF) return true;
+    ungetc(next, f);
+    return isspace(next);
+}
+
 /*
     Load a 2D image from a text file.
 
@@ -219,7 +231,8 @@ std::valarray<std::valarray<double> > load_image_from_txt(const char* filename)
     int n_rows;
     int n_columns;
     int c = fscanf(f, "%d %d", &n_rows, &n_columns);
-    if (c != 2) error("Failed to read n_rows, n_columns '%s'", filename);
+    if ((c != 2) || !at_end_of_number(f))
+        error("Failed to read n_rows, n_columns '%s'", filename);
     if ((n_rows < 0) || (n_columns < 0))
         error("Invalid n_rows, n_columns [%d, %d] '%s'", n_rows, n_columns, filename);
 
@@ -229,7 +242,7 @@ std::valarray<std::valarray<double> > load_image_from_txt(const char* filename)
     for (int i_row = 0; i_row < n_rows; i_row++) {
         for (int i_col = 0; i_col < n_columns; i_col++) {
             c = fscanf(f, "%lf", &image[i_row][i_col]);
-            if (c != 1)
+            if ((c != 1) || !at_end_of_number(f))
                 error("Failed to read image [%d, %d] '%s'", i_row, i_col, filename);
         }
     }
-- 
2.43.0


From bc4a0e36efc3451b8bd3abce9700783f9cdaa2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:25 +0000
Subject: [PATCH 29/44] fix: read-out objects of the Python interface were
 never freed after an exception

---
 python/arcticpy/src/interface.cpp | 41 ++++++++++++++-----------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/python/arcticpy/src/interface.cpp b/python/arcticpy/src/interface.cpp
index d9722cf..25f6c58 100644
--- a/python/arcticpy/src/interface.cpp
+++ b/python/arcticpy/src/interface.cpp
@@ -3,6 +3,7 @@
 
 #include <stdio.h>
 
+#include <memory>
 #include <valarray>
 
 /*
@@ -128,30 +129,30 @@ void add_cti(
     for (int i_step = 0; i_step < parallel_n_steps; i_step++) {
         parallel_dwell_times[i_step] = parallel_dwell_times_in[i_step];
     }
-    ROE* p_parallel_roe = NULL;
+    std::unique_ptr<ROE> p_parallel_roe;
     if (parallel_roe_type == 0) {
-        p_parallel_roe = new ROE(
+        p_parallel_roe.reset(new ROE(
             parallel_dwell_times, 
             parallel_prescan_offset,
             parallel_overscan_start,
             parallel_empty_traps_between_columns,
             parallel_empty_traps_for_first_transfers,
             parallel_force_release_away_from_readout,
-            parallel_use_integer_express_matrix);
+            parallel_use_integer_express_matrix));
     } else if (parallel_roe_type == 1) {
-        p_parallel_roe = new ROEChargeInjection(
+        p_parallel_roe.reset(new ROEChargeInjection(
             parallel_dwell_times, 
             parallel_prescan_offset,
             parallel_overscan_start,
             parallel_empty_traps_between_columns,
             parallel_force_release_away_from_readout,
-            parallel_use_integer_express_matrix);
+            parallel_use_integer_express_matrix));
     } else {
-        p_parallel_roe = new ROETrapPumping(
+        p_parallel_roe.reset(new ROETrapPumping(
             parallel_dwell_times, 
             parallel_n_pumps,
             parallel_empty_traps_for_first_transfers,
-            parallel_use_integer_express_matrix);
+            parallel_use_integer_express_matrix));
     }
 
     // CCD
@@ -215,30 +216,30 @@ void add_cti(
     for (int i_step = 0; i_step < serial_n_steps; i_step++) {
         serial_dwell_times[i_step] = serial_dwell_times_in[i_step];
     }
-    ROE* p_serial_roe = NULL;
+    std::unique_ptr<ROE> p_serial_roe;
     if (serial_roe_type == 0) {
-        p_serial_roe = new ROE(
+        p_serial_roe.reset(new ROE(
             serial_dwell_times, 
             serial_prescan_offset,
             serial_overscan_start,
             serial_empty_traps_between_columns,
             serial_empty_traps_for_first_transfers,
             serial_force_release_away_from_readout, 
-            serial_use_integer_express_matrix);
+            serial_use_integer_express_matrix));
     } else if (serial_roe_type == 1) {
-        p_serial_roe = new ROEChargeInjection(
+        p_serial_roe.reset(new ROEChargeInjection(
             serial_dwell_times, 
             serial_prescan_offset,
             serial_overscan_start,
             serial_empty_traps_between_columns,
             serial_force_release_away_from_readout, 
-            serial_use_integer_express_matrix);
+            serial_use_integer_express_matrix));
     } else {
-        p_serial_roe = new ROETrapPumping(
+        p_serial_roe.reset(new ROETrapPumping(
             serial_dwell_times, 
             serial_n_pumps, 
             serial_empty_traps_for_first_transfers,
-            serial_use_integer_express_matrix);
+            serial_use_integer_express_matrix));
     }
 
     // CCD
@@ -317,7 +318,7 @@ void add_cti(
             nullptr, nullptr, nullptr, nullptr, nullptr, nullptr, 
             0, 0, parallel_window_start, parallel_window_stop, 0, 0, prune_zero, 0,
             // Serial
-            p_serial_roe, &serial_ccd, &serial_traps_ic, &serial_traps_sc,
+            p_serial_roe.get(), &serial_ccd, &serial_traps_ic, &serial_traps_sc,
             &serial_traps_continuum, &serial_traps_sc_co, 
             serial_express, serial_offset,
             serial_window_start, serial_window_stop, 
@@ -333,7 +334,7 @@ void add_cti(
         image_out = add_cti(
             image_in,
             // Parallel
-            p_parallel_roe, &parallel_ccd, &parallel_traps_ic, &parallel_traps_sc,
+            p_parallel_roe.get(), &parallel_ccd, &parallel_traps_ic, &parallel_traps_sc,
             &parallel_traps_continuum, &parallel_traps_sc_co, 
             parallel_express, parallel_offset, 
             parallel_window_start, parallel_window_stop,
@@ -352,14 +353,14 @@ void add_cti(
         image_out = add_cti(
             image_in,
             // Parallel
-            p_parallel_roe, &parallel_ccd, 
+            p_parallel_roe.get(), &parallel_ccd, 
             &parallel_traps_ic, &parallel_traps_sc, &parallel_traps_continuum, &parallel_traps_sc_co, 
             parallel_express, parallel_offset, 
             parallel_window_start, parallel_window_stop,
             parallel_time_start, parallel_time_stop,
             parallel_prune_n_electrons[0], parallel_prune_frequency,
             // Serial
-            p_serial_roe, &serial_ccd, 
+            p_serial_roe.get(), &serial_ccd, 
             &serial_traps_ic, &serial_traps_sc, &serial_traps_continuum, &serial_traps_sc_co, 
             serial_express, serial_offset,
             serial_window_start, serial_window_stop,
@@ -371,10 +372,6 @@ void add_cti(
             verbosity, iteration);
     }
 
-    // Delete serial/parallel ROE if previously allocated
-    delete p_parallel_roe;
-    delete p_serial_roe;
-
     // Convert the output image back to modify the input image array
     for (int i_row = 0; i_row < n_rows; i_row++) {
         for (int i_col = 0; i_col < n_columns; i_col++) {
-- 
2.43.0


From f510adbf81718a1307c3e12305c3417e17c6396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 30/44] fix: windows, images and settings that cannot be
 modelled are refused

---
 src/cti.cpp  | 18 +++++++++++++++++-
 src/roe.cpp  |  1 +
 src/util.cpp |  2 +-
 3 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/cti.cpp b/src/cti.cpp
index 9b157b8..e2d12de 100644
--- a/src/cti.cpp
+++ b/src/cti.cpp
@@ -80,12 +80,28 @@ std::valarray<std::valarray<double> > clock_charge_in_one_direction(
 
     // Image shape
     unsigned int n_rows = image.size();
-    unsigned int n_columns = image[0].size();
+    unsigned int n_columns = (n_rows > 0) ? image[0].size() : 0;
+    if ((n_rows == 0) || (n_columns == 0)) error("The image has no pixels");
+    for (unsigned int i_row = 0; i_row < n_rows; i_row++)
+        if (image[i_row].size() != n_columns)
+            error("The rows of the image have different lengths");
 
     // Defaults
     if (row_stop == -1) row_stop = n_rows;
     if (column_stop == -1) column_stop = n_columns;
 
+    // Checks for inputs that cannot be modelled
+    if ((roe == nullptr) || (ccd == nullptr)) error("Traps need an ROE and a CCD");
+    if ((express < 0) || (row_offset < 0))
+        error("Negative express (%d) or offset (%d)", express, row_offset);
+    if ((row_start < 0) || (row_stop < row_start) || (row_stop > (int)n_rows))
+        error("Rows %d to %d are not in the image (%d)", row_start, row_stop, n_rows);
+    if ((column_start < 0) || (column_stop < column_start) ||
+        (column_stop > (int)n_columns))
+        error(
+            "Columns %d to %d are not in the image (%d)", column_start, column_stop,
+            n_columns);
+
     // Number of active rows and columns
     unsigned int n_active_rows = row_stop - row_start;
     unsigned int n_active_columns = column_stop - column_start;
diff --git a/src/roe.cpp b/src/roe.cpp
index 62665fd..3abfd0c 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -851,6 +851,7 @@ ROETrapPumping::ROETrapPumping(
 
     if (n_steps % 2 != 0)
         error("The number of steps for trap pumping (%d) must be even", n_steps);
+    if (n_pumps < 1) error("The number of pumps (%d) must be at least 1", n_pumps);
     n_phases = n_steps / 2;
 }
 
diff --git a/src/util.cpp b/src/util.cpp
index 9ab932e..b755ddb 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -175,7 +175,7 @@ std::valarray<std::valarray<double> > transpose(
 
     // Create the opposite-shape array
     int n_rows = array.size();
-    int n_columns = array[0].size();
+    int n_columns = (n_rows > 0) ? array[0].size() : 0;
     std::valarray<std::valarray<double> > array_T(
         std::valarray<double>(0.0, n_rows), n_columns);
 
-- 
2.43.0


From 23483f930d340777b80c5ceb2872777da8a26ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:50 +0000
Subject: [PATCH 31/44] fix: C++ exceptions ended the Python interpreter

---
 python/arcticpy/wrapper.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/arcticpy/wrapper.pyx b/python/arcticpy/wrapper.pyx
index 2e131c8..7e9b327 100644
--- a/python/arcticpy/wrapper.pyx
+++ b/python/arcticpy/wrapper.pyx
@@ -5,7 +5,7 @@ import numpy as np
 from libcpp.string cimport string
 
 cdef extern from "read_noise.hpp":
-    void determine_read_noise_model(const double* imageIn, const double* imageOut, const int rows, const int cols, const double readNoiseAmp, const double readNoiseAmpFraction, const int smoothCol, double* output);
+    void determine_read_noise_model(const double* imageIn, const double* imageOut, const int rows, const int cols, const double readNoiseAmp, const double readNoiseAmpFraction, const int smoothCol, double* output) except +;
 
 def cy_determine_read_noise_model(np.ndarray[np.float64_t, ndim=2] arr1, np.ndarray[np.float64_t, ndim=2] arr2, readNoiseAmp, readNoiseAmpFraction, smoothCol):
     cdef int rows = arr1.shape[0]
@@ -19,8 +19,8 @@ cdef extern from "util.hpp":
     void print_version()
 
 cdef extern from "interface.hpp":
-    void print_array(double* array, int length)
-    void print_array_2D(double* array, int n_rows, int n_columns)
+    void print_array(double* array, int length) except +
+    void print_array_2D(double* array, int n_rows, int n_columns) except +
     void add_cti(
         double* image,
         int n_rows,
@@ -110,7 +110,7 @@ cdef extern from "interface.hpp":
         # Output
         int verbosity,
         int iteration
-    )
+    ) except +
 
 
 def cy_print_version():
-- 
2.43.0


From fb9b555dde093ec660511992a570381c488ac1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:21 +0000
Subject: [PATCH 32/44] fix: strided or mismatched arrays were read as if they
 were contiguous and equally long

---
 python/arcticpy/wrapper.pyx | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/python/arcticpy/wrapper.pyx b/python/arcticpy/wrapper.pyx
index 7e9b327..6bb2fc8 100644
--- a/python/arcticpy/wrapper.pyx
+++ b/python/arcticpy/wrapper.pyx
@@ -8,6 +8,10 @@ cdef extern from "read_noise.hpp":
     void determine_read_noise_model(const double* imageIn, const double* imageOut, const int rows, const int cols, const double readNoiseAmp, const double readNoiseAmpFraction, const int smoothCol, double* output) except +;
 
 def cy_determine_read_noise_model(np.ndarray[np.float64_t, ndim=2] arr1, np.ndarray[np.float64_t, ndim=2] arr2, readNoiseAmp, readNoiseAmpFraction, smoothCol):
+    if arr1.shape[0] != arr2.shape[0] or arr1.shape[1] != arr2.shape[1]:
+        raise ValueError("The input and output images have different shapes")
+    arr1 = check_contiguous(arr1)
+    arr2 = check_contiguous(arr2)
     cdef int rows = arr1.shape[0]
     cdef int cols = arr1.shape[1]
     cdef np.ndarray[np.float64_t, ndim=2] out = np.zeros((rows, cols), dtype=np.float64)
@@ -230,7 +234,35 @@ def cy_add_cti(
     python wrapper to the C++ interface. See add_cti() in cti.py and add_cti()
     in interface.cpp.
     """
+    if not (
+        len(parallel_full_well_depths)
+        == len(parallel_well_notch_depths)
+        == len(parallel_well_fill_powers)
+        == len(parallel_first_electron_fills)
+        == len(parallel_fraction_of_traps_per_phase)
+    ):
+        raise ValueError("Different numbers of CCD phases and trap fractions")
+    if not (
+        len(serial_full_well_depths)
+        == len(serial_well_notch_depths)
+        == len(serial_well_fill_powers)
+        == len(serial_first_electron_fills)
+        == len(serial_fraction_of_traps_per_phase)
+    ):
+        raise ValueError("Different numbers of CCD phases and trap fractions")
     image = check_contiguous(image)
+    parallel_dwell_times = check_contiguous(parallel_dwell_times)
+    parallel_fraction_of_traps_per_phase = check_contiguous(parallel_fraction_of_traps_per_phase)
+    parallel_full_well_depths = check_contiguous(parallel_full_well_depths)
+    parallel_well_notch_depths = check_contiguous(parallel_well_notch_depths)
+    parallel_well_fill_powers = check_contiguous(parallel_well_fill_powers)
+    parallel_first_electron_fills = check_contiguous(parallel_first_electron_fills)
+    serial_dwell_times = check_contiguous(serial_dwell_times)
+    serial_fraction_of_traps_per_phase = check_contiguous(serial_fraction_of_traps_per_phase)
+    serial_full_well_depths = check_contiguous(serial_full_well_depths)
+    serial_well_notch_depths = check_contiguous(serial_well_notch_depths)
+    serial_well_fill_powers = check_contiguous(serial_well_fill_powers)
+    serial_first_electron_fills = check_contiguous(serial_first_electron_fills)
 
     add_cti(
         &image[0, 0],
-- 
2.43.0


From f34c859e0bcaba25cc44df43eb0239198c881cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:39 +0000
Subject: [PATCH 33/44] fix: images that lie wholly in the overscan

---
 src/roe.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/roe.cpp b/src/roe.cpp
index 3abfd0c..68dfe91 100644
--- a/src/roe.cpp
+++ b/src/roe.cpp
@@ -350,13 +350,17 @@ void ROE::set_express_matrix_from_rows_and_express(
     //std::cout << "overscan " << overscan_start << " f " << overscan_in_image << "\n";
     if (overscan_in_image > 0) {
         int n_express_rows = express_matrix.size() / n_rows;
-        for (int i_row = 0; (i_row < overscan_in_image); i_row++) {
+        for (int i_row = 0; (i_row < overscan_in_image) && (i_row < n_rows); i_row++) {
             double to_remove = overscan_in_image - i_row;
             double removed = 0;
             int i_express = 0;
             while (removed < to_remove) {
                 int index = (n_express_rows - i_express) * n_rows - i_row - 1;
-                if ( index < 0 ) throw std::invalid_argument( "Accessing pixel that does not exist" );
+                if ( index < 0 ) {
+                    // All passes are removed (up to rounding of their multipliers)
+                    if ( to_remove - removed < 1e-6 ) break;
+                    throw std::invalid_argument( "Accessing pixel that does not exist" );
+                }
                 //std::cout << i_express << i_row << " " << to_remove << removed << " index " << index << "\n";
                 removed += express_matrix[index];
                 express_matrix[index] = fmax(removed - to_remove, 0);
-- 
2.43.0


From 3931eedda3e52de96f7b4c1955903e47e3092357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 34/44] fix: a failed download of the benchmark image ended
 with exit status 0

---
 src/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.cpp b/src/main.cpp
index 64e0cc5..7a7e16f 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -117,7 +117,8 @@ int run_benchmark() {
             "wget http://www.astro.dur.ac.uk/~rjm/ArCTIc/benchmark_2k2k_image.txt";
         printf("%s\n", command);
         int status = system(command);
-        if (status != 0) exit(status);
+        // The status is not an exit code, e.g. 256 would end as a success
+        if (status != 0) error("Failed to download image file '%s'", filename);
     } else
         fclose(f);
 
-- 
2.43.0


From c960bf6271889600304e289fbeb6ff863bb5d3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:04 +0000
Subject: [PATCH 35/44] fix: refuse to transpose arrays whose rows have
 different lengths

---
 src/util.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/util.cpp b/src/util.cpp
index b755ddb..8504a60 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -176,6 +176,9 @@ std::valarray<std::valarray<double> > transpose(
     // Create the opposite-shape array
     int n_rows = array.size();
     int n_columns = (n_rows > 0) ? array[0].size() : 0;
+    for (int i_row = 0; i_row < n_rows; i_row++)
+        if ((int)array[i_row].size() != n_columns)
+            error("The rows of the array have different lengths");
     std::valarray<std::valarray<double> > array_T(
         std::valarray<double>(0.0, n_rows), n_columns);
 
-- 
2.43.0


From 868ea62d83ace01bfe49452490a1e7bb65285552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:53 +0000
Subject: [PATCH 36/44] fix: pixel bounce could not be added together with CTI

---
 python/arcticpy/cti.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/cti.py b/python/arcticpy/cti.py
index 92c0488..3056a40 100644
--- a/python/arcticpy/cti.py
+++ b/python/arcticpy/cti.py
@@ -310,7 +310,7 @@ def add_cti(
         bias_total = np.zeros(image.shape)
         
         for pixel_bounce in pixel_bounce_list:
-            bias = pixel_bounce.bias_from(
+            bias = pixel_bounce.perturb_bias(
                 image_trailed,
                 parallel_window_start=parallel_window_start,
                 parallel_window_stop=parallel_window_stop,
-- 
2.43.0


From cc59cfe69dcbe646ea30b9db43d0a56ee2dd00a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:53 +0000
Subject: [PATCH 37/44] fix: converting a ROE to charge injection used
 undefined names

---
 python/arcticpy/roe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/roe.py b/python/arcticpy/roe.py
index 130ba6a..7b5a629 100644
--- a/python/arcticpy/roe.py
+++ b/python/arcticpy/roe.py
@@ -85,7 +85,7 @@ class ROEChargeInjection(ROE):
         return ROEChargeInjection(
             dwell_times=roe.dwell_times,
             prescan_offset=roe.prescan_offset + n_pixels_in_image,
-            prescan_length=prescan_length,
+            prescan_length=roe.prescan_length,
             overscan_start=roe.overscan_start,
             empty_traps_between_columns=roe.empty_traps_between_columns,
             force_release_away_from_readout=roe.force_release_away_from_readout,
@@ -94,7 +94,7 @@ class ROEChargeInjection(ROE):
             pixel_bounce_kv=roe.pixel_bounce_kv,
             pixel_bounce_omega=roe.pixel_bounce_omega,
             pixel_bounce_gamma=roe.pixel_bounce_gamma,
-            read_noise=read_noise
+            read_noise=roe.read_noise
         )
 
 
-- 
2.43.0


From e4311cfbb4db2fdb2728d66d9c20327a32c0bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:53 +0000
Subject: [PATCH 38/44] fix: the natural frequency of pixel bounce used
 undefined names

---
 python/arcticpy/pixel_bounce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 78462ef..5ef2a9c 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -52,7 +52,7 @@ class PixelBounce:
 
     @property
     def omega0(self):
-        return np.sqrt(omega**2 + gamma**2)  # natural frequency of oscillator
+        return np.sqrt(self.omega**2 + self.gamma**2)  # natural frequency of oscillator
 
     def perturb_bias(
             self,
-- 
2.43.0


From 71d51d67228df9f7f43488a9f811ef20c2511c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:53 +0000
Subject: [PATCH 39/44] fix: empty lists of traps raised an IndexError

---
 python/arcticpy/cti.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/arcticpy/cti.py b/python/arcticpy/cti.py
index 3056a40..046cc13 100644
--- a/python/arcticpy/cti.py
+++ b/python/arcticpy/cti.py
@@ -136,7 +136,7 @@ def add_cti(
     # Extract inputs and/or set dummy variables to pass to the wrapper
     # ========
     # Parallel
-    if parallel_traps is not None:
+    if parallel_traps is not None and len(parallel_traps) > 0:
         (
             parallel_trap_densities,
             parallel_trap_release_timescales,
@@ -164,7 +164,7 @@ def add_cti(
     parallel_prune_n_es = np.array([parallel_prune_n_electrons], dtype=np.double)
 
     # Serial
-    if serial_traps is not None:
+    if serial_traps is not None and len(serial_traps) > 0:
         (
             serial_trap_densities,
             serial_trap_release_timescales,
-- 
2.43.0


From 84e837c72b94bfc272e038434faf629dd2fbd7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:05 +0000
Subject: [PATCH 40/44] fix: optimising the read-noise fraction changed the
 read-out electronics of the caller

---
 python/arcticpy/read_noise.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 5a3596d..10fbbc1 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -1,3 +1,4 @@
+import copy
 import numpy as np
 import matplotlib as mpl
 from scipy.optimize import curve_fit
@@ -316,9 +317,12 @@ class ReadNoise:
         self.sigmaSky = background_sigma
 
         # set prescan regions (this simulates the maximum possible CTI trailing, averaged at the far edge of the real CCD)
+        # (of copies, so the objects of the caller stay as they are)
         if "parallel_roe" in kwargs:
+            kwargs["parallel_roe"] = copy.copy(kwargs["parallel_roe"])
             kwargs["parallel_roe"].prescan_offset = n_pixels[0] + (subchip_size // 2)
         if "serial_roe" in kwargs:
+            kwargs["serial_roe"] = copy.copy(kwargs["serial_roe"])
             kwargs["serial_roe"].prescan_offset = n_pixels[1] + (subchip_size // 2)
 
         # container for optimised values
-- 
2.43.0


From f4fee5d7469578338492ac5194611b510fd80e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:22 +0000
Subject: [PATCH 41/44] fix: optimising the read-noise fraction used undefined
 functions

---
 python/arcticpy/read_noise.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index 10fbbc1..c49741e 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -2,6 +2,7 @@ import copy
 import numpy as np
 import matplotlib as mpl
 from scipy.optimize import curve_fit
+import arcticpy as arctic
 
 try:
     from arcticpy import wrapper as w
@@ -336,10 +337,9 @@ class ReadNoise:
 
         # create "simulation noise" covariance matrix (estimated from the sky+readnoise image)
         # in this case, the fpr decrement is set to zero, because there is no CTI trailing
-        sim_matrix = self.covariance_matrix_from_image(
+        sim_matrix = CovarianceMatrix().from_image(
             self.skyFrameSim + self.readnoiseFrameSim,
             matrix_size=matrix_size,
-            fprSize=5,
         )
 
         # ideally, the matrix should be all zeros except for the centre square (== sigmaSky**2 + sigmaReadnoise**2)
@@ -758,7 +758,7 @@ class ReadNoise:
         Estimate a covariance matrix for an optimising simulation, assuming the sky/noise frames have already been created
         """
         # add CTI effects to skyFrame
-        ctiTrailedFrame = w.add_cti(skyFrame, **kwargs)
+        ctiTrailedFrame = arctic.add_cti(skyFrame, **kwargs)
         # add read noise to CTI-trailed image
         readNoiseAddedFrame = ctiTrailedFrame + noiseFrame
         # do S+R routine
@@ -770,13 +770,13 @@ class ReadNoise:
         ##rFrame*=sr_fraction
         ##sFrame-=rFrame
         # clean CTI from S frame
-        ctiCorrectedFrame = w.remove_cti(sFrame, 1, **kwargs)
+        ctiCorrectedFrame = arctic.remove_cti(sFrame, 1, **kwargs)
         # re-add R frame to correction
         outputFrame = ctiCorrectedFrame + rFrame
 
         # determine covariance FOMs
-        fomSR = self.covariance_matrix_from_image(outputFrame, matrix_size=matrix_size)
-        fomBenchmark = self.covariance_matrix_from_image(
+        fomSR = CovarianceMatrix().from_image(outputFrame, matrix_size=matrix_size)
+        fomBenchmark = CovarianceMatrix().from_image(
             skyFrame + noiseFrame, matrix_size=matrix_size
         )
         fomDiff = fomSR - fomBenchmark
-- 
2.43.0


From 6e71e2c596652f87738caffdb7ae81e5fa142577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:54 +0000
Subject: [PATCH 42/44] fix: a read-noise optimisation that was interrupted
 could not be repeated

---
 python/arcticpy/read_noise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/arcticpy/read_noise.py b/python/arcticpy/read_noise.py
index c49741e..01ca2a4 100644
--- a/python/arcticpy/read_noise.py
+++ b/python/arcticpy/read_noise.py
@@ -330,7 +330,7 @@ class ReadNoise:
         self.optVals = {}
 
         # if they don't exist, make the sky background and readnoise images for the simulations
-        if (self.skyFrameSim is None) & (self.readnoiseFrameSim is None):
+        if (self.skyFrameSim is None) | (self.readnoiseFrameSim is None):
             self._create_initial_sim_images(
                 background_level, background_sigma, image_size=subchip_size
             )
-- 
2.43.0


From 8afc0dd8ea8d9086fcd1f290e7ed3b5524c053f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 43/44] fix: pixel bounce of unsigned or single-precision
 images

The difference between neighbouring pixels was taken in the type of the input
image, so a fall in signal wrapped around in an unsigned image.
---
 python/arcticpy/pixel_bounce.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 5ef2a9c..4fd8c27 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -93,6 +93,10 @@ class PixelBounce:
         bias : [[float]]
             The output bias image array of pixel values.
         """
+        # Differences between pixels must not wrap around (or be rounded) in the
+        # data type of the input image
+        image = np.asarray(image, dtype=np.double)
+
         # Initialise bias offset voltage, which should settle during prescan
         # of each row
         bias = np.zeros(image.shape)
-- 
2.43.0


From 9433e8596f61a6c2b9da2a99dbccce2d28365264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 44/44] fix: add_pixel_bounce_slow works for images of more
 than one row

The bias of one row was indexed by the row of the image (an IndexError from the
second row on), the bias of the previous row leaked into the next one, and the
caller's image was overwritten.
---
 python/arcticpy/pixel_bounce.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/arcticpy/pixel_bounce.py b/python/arcticpy/pixel_bounce.py
index 4fd8c27..e97bb79 100644
--- a/python/arcticpy/pixel_bounce.py
+++ b/python/arcticpy/pixel_bounce.py
@@ -240,18 +240,19 @@ class PixelBounce:
         # omega = np.sqrt(self.omegaO**2 - self.gamma**2)
         coeffA = 2 * np.exp(-1 * self.gamma * epsilon) * np.cos(self.omega * epsilon)
         coeffB = np.exp(-2 * self.gamma * epsilon)
-        biasm1 = 0.0
+
+        # Do not overwrite the input image
+        image = np.copy(image).astype(np.double)
 
         # Read out one column of pixels through the (column of) traps
         n_rows_in_image, n_columns_in_image = image.shape
         import copy
 
         for row_index in range(n_rows_in_image):
-            print("Bouncing, one row at a time")
-
             # Initialise bias offset voltage, which should settle during prescan
             # of each row
             bias = np.zeros((1, n_columns_in_image))
+            biasm1 = 0.0
 
             # Each pixel
             # for row_index in window_row_range:
@@ -259,7 +260,7 @@ class PixelBounce:
                 # Store previous values of bias, so difference equation can
                 # compute rates of change
                 biasm2 = copy.copy(biasm1)
-                biasm1 = bias[row_index, column_index - 1]
+                biasm1 = bias[0, column_index - 1]
 
                 # What electronic impulse is being experienced?
                 delta = (
-- 
2.43.0

