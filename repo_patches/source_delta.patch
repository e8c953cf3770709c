From 8236f126d8894ab2fa108d2542ab1730f01d7817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:43 +0000
Subject: [PATCH 01/12] fix: do not use the removed np.str when printing
 quaternions

The alias np.str no longer exists in numpy, so printing any quaternion or dual
quaternion (which the calibration does for every solution) raised.
---
 .../python/hand_eye_calibration/dual_quaternion.py              | 2 +-
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index 749038e..d27aa0e 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -36,7 +36,7 @@ class DualQuaternion(object):
     self.assert_normalization()
 
   def __str__(self):
-    return "[q_rot: {}, q_dual: {}]".format(np.str(self.q_rot), np.str(self.q_dual))
+    return "[q_rot: {}, q_dual: {}]".format(str(self.q_rot), str(self.q_dual))
 
   def __repr__(self):
     return ("<Dual quaternion q_rot {} q_dual {}>").format(self.q_rot, self.q_dual)
diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 772bd32..ef4792f 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -26,7 +26,7 @@ class Quaternion(object):
       assert False
 
   def __str__(self):
-    return np.str(self.q)
+    return str(self.q)
 
   def __repr__(self):
     return "<Quaternion x:{} y:{} z:{} w:{}>".format(self.x, self.y, self.z, self.w)
-- 
2.43.0


From bfb49c9920cad1f61750fead68bd407a03a9633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:43 +0000
Subject: [PATCH 02/12] fix: angle_axis drops small rotations and fails for w =
 -1

The default relative tolerance of isclose turned every rotation below about half
a degree into no rotation. The quaternion [0 0 0 -1], which is also the identity
rotation, gave a division by zero.
---
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index ef4792f..793457f 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -138,7 +138,7 @@ class Quaternion(object):
     The output format is np.array([x, y, z, angle]).
     """
     # If there is no rotation return rotation about x-axis with zero angle.
-    if np.isclose(self.w, 1., atol=1.e-12):
+    if np.isclose(np.absolute(self.w), 1., rtol=0., atol=1.e-12):
       return(np.array([1., 0., 0., 0.]))
 
     angle = 2. * np.arccos(self.w)
-- 
2.43.0


From d0d8c25b21b8b7420407e92d0011cb83e1730ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:43 +0000
Subject: [PATCH 03/12] fix: quaternion from rotation matrix fails close to 180
 degrees

The real part vanishes for such rotations, so dividing by it returned NaN.
---
 .../python/hand_eye_calibration/quaternion.py      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 793457f..99b7094 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -104,6 +104,20 @@ class Quaternion(object):
 
   @classmethod
   def from_rotation_matrix(cls, rotation_matrix):
+    trace = rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2]
+    if trace < 0.0:
+      # The real part is small, hence start from the largest imaginary component
+      # to avoid dividing by (almost) zero for rotations close to 180 degrees.
+      i = int(np.argmax(np.diag(rotation_matrix)[0:3]))
+      j = (i + 1) % 3
+      k = (i + 2) % 3
+      q = np.zeros(4)
+      q[i] = np.sqrt(1.0 + rotation_matrix[i, i] - rotation_matrix[j, j] -
+                     rotation_matrix[k, k]) / 2
+      q[j] = (rotation_matrix[j, i] + rotation_matrix[i, j]) / (4.0 * q[i])
+      q[k] = (rotation_matrix[k, i] + rotation_matrix[i, k]) / (4.0 * q[i])
+      q[3] = (rotation_matrix[k, j] - rotation_matrix[j, k]) / (4.0 * q[i])
+      return cls(q=-q if q[3] < 0.0 else q)
     w = np.sqrt(
         1.0 + rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2]) / 2
     w4 = 4.0 * w
-- 
2.43.0


From d0e4b38506adccdd0e3b0c669c56ad3922dced58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:43 +0000
Subject: [PATCH 04/12] fix: angle between quaternions can be NaN

Rounding can push the real part of the difference of two unit quaternions
slightly out of the domain of arccos.
---
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 99b7094..30db58c 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -325,7 +325,7 @@ def angle_between_quaternions(q1, q2):
   """ Returns the angle between two quaternions, q1 and q2. """
   if np.allclose(q1.q, q2.q, atol=1.e-12):
     return 0.0
-  return 2. * np.arccos((q1 * q2.inverse()).w)
+  return 2. * np.arccos(np.clip((q1 * q2.inverse()).w, -1., 1.))
 
 
 def angular_velocity_between_quaternions(q1, q2, t):
-- 
2.43.0


From e1f2460ed058106a0516d429887448c4a3cf3028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:43 +0000
Subject: [PATCH 05/12] fix: orientations are not interpolated for large time
 stamps

The default relative tolerance of isclose treated every sample as identical to
the next time stamp if the time stamps are large, e.g. seconds since the epoch.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 05b2758..c0588d1 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -71,7 +71,7 @@ def resample_quaternions_from_samples(times, quaternions, samples):
     assert sample >= times[0], (sample, times[0])
 
     right_idx = bisect.bisect_left(times, sample)
-    if (np.isclose(sample, times[right_idx], atol=1e-16)):
+    if (np.isclose(sample, times[right_idx], rtol=0., atol=1e-16)):
       interp_quaternions.append(quaternions[right_idx])
     else:
       left_idx = right_idx - 1
-- 
2.43.0


From 331cdabf49f7c642e354ccf36d22df5f170d5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:43 +0000
Subject: [PATCH 06/12] fix: number of resampling points has to be an integer

linspace rejects a floating point number of samples, so the time offset could
not be computed at all.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index c0588d1..c6a6b64 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -95,7 +95,7 @@ def resample_quaternions(times, quaternions, dt):
   Uses SLERP for quaternion interpolation.
   """
   interval = times[-1] - times[0]
-  samples = np.linspace(times[0], times[-1], interval / dt + 1)
+  samples = np.linspace(times[0], times[-1], int(interval / dt + 1))
   return (resample_quaternions_from_samples(times, quaternions, samples),
           samples)
 
-- 
2.43.0


From e5e7a498da2d65ac453c46ac28f124db04c26afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:43 +0000
Subject: [PATCH 07/12] fix: random.sample does not accept a set

Sampling from a set raises on current Python versions.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 9a19b88..0f890e5 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -709,7 +709,7 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
     if config.enable_exhaustive_search:
       sample_indices = list(all_sample_combinations[sample_number])
     else:
-      sample_indices = random.sample(indices_set,
+      sample_indices = random.sample(sorted(indices_set),
                                      config.ransac_sample_size)
     sample_number += 1
 
-- 
2.43.0


From f15d96b3fd1be8741fc8d90010da0fca490ec009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:43 +0000
Subject: [PATCH 08/12] fix: undefined variable in exhaustive baseline
 calibration

---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 0f890e5..eff279d 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -558,7 +558,7 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
 
   if config.enable_exhaustive_search:
     assert best_idx != -1, "Not enough inliers found!"
-    dq_W_E_vec_inlier = best_dq_W_E_vec_filtered
+    dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
   aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-- 
2.43.0


From f92072183c9e9cbbb6dcd7322268c0646b139326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:43 +0000
Subject: [PATCH 09/12] fix: index error in baseline calibration

best_idx is an index into all poses, but was used to index the inliers only. The
result of this alignment was never used.
---
 .../dual_quaternion_hand_eye_calibration.py                    | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index eff279d..c517369 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -561,9 +561,6 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
     dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
-  aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-  aligned_dq_W_E = align_paths_at_index(dq_W_E_vec_inlier, best_idx)
-
   print("Best start idx: {}".format(best_idx))
   print("Removed {} outliers from the (prefiltered) poses.".format(
       len(dq_B_H_vec_filtered) - len(dq_B_H_vec_inlier)))
-- 
2.43.0


From b98d7e8ef139c2a3d2009a3433716d8c4925e771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:43 +0000
Subject: [PATCH 10/12] fix: poses read from JPL files were not converted to
 Hamilton

Only the separate list of quaternions was converted, the returned poses kept the
JPL quaternions.
---
 hand_eye_calibration/python/hand_eye_calibration/csv_io.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
index 58c1531..a98fbd4 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
@@ -24,10 +24,8 @@ def read_time_stamped_poses_from_csv_file(csv_file, JPL_quaternion_format=False)
   for pose in poses:
     pose[3:] /= np.linalg.norm(pose[3:])
     if JPL_quaternion_format:
-      quaternion_JPL = np.array([-pose[3], -pose[4], -pose[5], pose[6]])
-      quaternions.append(Quaternion(q=quaternion_JPL))
-    else:
-      quaternions.append(Quaternion(q=pose[3:]))
+      pose[3:6] *= -1.
+    quaternions.append(Quaternion(q=pose[3:]))
 
   return (time_stamped_poses.copy(), times, quaternions)
 
-- 
2.43.0


From ef5b9f9e835723a2e3abda9577b393090b04ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:43 +0000
Subject: [PATCH 11/12] fix: create_path fails without a directory and on
 errors

A plain file name has an empty directory name that cannot be created, and the
error handling used errno without importing it.
---
 hand_eye_calibration/python/hand_eye_calibration/bash_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index fb435ee..2042761 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 from __future__ import print_function
+import errno
 import os
 import sys
 import json
@@ -28,7 +29,7 @@ def run(cmd, dry_run=False):
 
 
 def create_path(path):
-  if not os.path.exists(os.path.dirname(path)):
+  if os.path.dirname(path) and not os.path.exists(os.path.dirname(path)):
     try:
       os.makedirs(os.path.dirname(path))
     except OSError as exc:  # Guard against race condition
-- 
2.43.0


From c343ca2734dd18d99fad8a22359f86fd66bc3b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:43 +0000
Subject: [PATCH 12/12] fix: results always reported prefiltering as disabled

---
 .../hand_eye_calibration_experiments/experiment_results.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
index 24fb3af..a72c169 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
@@ -30,7 +30,7 @@ class ResultEntry:
 
   def init_from_configs(self, name, iteration, time_alignment_config, hand_eye_config, optimization_config):
     self.algorithm_name = name
-    self.prefiltering = hand_eye_config.prefilter_poses_enabled
+    self.prefiltering_enabled = hand_eye_config.prefilter_poses_enabled
     self.optimization_enabled = optimization_config.enable_optimization
     self.iteration_num = iteration
 
-- 
2.43.0

