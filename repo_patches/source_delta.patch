From 19d916644c35856c3ea669ddf7f2b93fe8eafb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:24:16 +0000
Subject: [PATCH 01/32] fix: use str() instead of the removed np.str when
 printing quaternions

np.str no longer exists in current numpy. Printing a quaternion or dual
quaternion raised AttributeError, which made every calibration algorithm fail
as soon as it reported a solution.
---
 .../python/hand_eye_calibration/dual_quaternion.py              | 2 +-
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index 749038e..d27aa0e 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -36,7 +36,7 @@ class DualQuaternion(object):
     self.assert_normalization()
 
   def __str__(self):
-    return "[q_rot: {}, q_dual: {}]".format(np.str(self.q_rot), np.str(self.q_dual))
+    return "[q_rot: {}, q_dual: {}]".format(str(self.q_rot), str(self.q_dual))
 
   def __repr__(self):
     return ("<Dual quaternion q_rot {} q_dual {}>").format(self.q_rot, self.q_dual)
diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 772bd32..ef4792f 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -26,7 +26,7 @@ class Quaternion(object):
       assert False
 
   def __str__(self):
-    return np.str(self.q)
+    return str(self.q)
 
   def __repr__(self):
     return "<Quaternion x:{} y:{} z:{} w:{}>".format(self.x, self.y, self.z, self.w)
-- 
2.43.0


From e021ff61fa0183e78797b967f24f88d518a42eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:24:16 +0000
Subject: [PATCH 02/32] fix: pass an integer sample count to np.linspace when
 resampling

np.linspace rejects a float number of samples, so the time offset could not be
estimated at all.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 05b2758..6157000 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -95,7 +95,7 @@ def resample_quaternions(times, quaternions, dt):
   Uses SLERP for quaternion interpolation.
   """
   interval = times[-1] - times[0]
-  samples = np.linspace(times[0], times[-1], interval / dt + 1)
+  samples = np.linspace(times[0], times[-1], int(interval / dt + 1))
   return (resample_quaternions_from_samples(times, quaternions, samples),
           samples)
 
-- 
2.43.0


From 4354b516ab2d41479f9afb5e2e6c935561e28169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:24:16 +0000
Subject: [PATCH 03/32] fix: interpolate orientations at large time stamps

The closeness test kept the default relative tolerance of np.isclose. With
time stamps in seconds since the epoch this is several hours, so the
orientation snapped to the next pose instead of being interpolated.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index 6157000..c6a6b64 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -71,7 +71,7 @@ def resample_quaternions_from_samples(times, quaternions, samples):
     assert sample >= times[0], (sample, times[0])
 
     right_idx = bisect.bisect_left(times, sample)
-    if (np.isclose(sample, times[right_idx], atol=1e-16)):
+    if (np.isclose(sample, times[right_idx], rtol=0., atol=1e-16)):
       interp_quaternions.append(quaternions[right_idx])
     else:
       left_idx = right_idx - 1
-- 
2.43.0


From 104fc53e43e515b75481133b9be08d5abdc2b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:24:16 +0000
Subject: [PATCH 04/32] fix: draw RANSAC samples from a sequence

random.sample() no longer accepts a set, so all RANSAC variants without
exhaustive search failed on the first draw.
---
 .../dual_quaternion_hand_eye_calibration.py                     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 9a19b88..0f890e5 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -709,7 +709,7 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
     if config.enable_exhaustive_search:
       sample_indices = list(all_sample_combinations[sample_number])
     else:
-      sample_indices = random.sample(indices_set,
+      sample_indices = random.sample(sorted(indices_set),
                                      config.ransac_sample_size)
     sample_number += 1
 
-- 
2.43.0


From 3ff0563da236e6045bed5181af42775d2580f17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:11 +0000
Subject: [PATCH 05/32] fix: keep the arccos argument in its domain when
 computing angles

Rounding can push the scalar part of a unit quaternion slightly above one. The
angle between two (nearly) identical orientations was then NaN, which in turn
rejected perfect calibration candidates.
---
 .../python/hand_eye_calibration/dual_quaternion.py              | 2 +-
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index d27aa0e..1fb43e3 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -220,7 +220,7 @@ class DualQuaternion(object):
 
   def screw_axis(self):
     """ The rotation, translation and screw axis from the dual quaternion. """
-    rotation = 2. * np.degrees(np.arccos(self.q_rot.w))
+    rotation = 2. * np.degrees(np.arccos(np.clip(self.q_rot.w, -1., 1.)))
     rotation = np.mod(rotation, 360.)
 
     if (rotation > 1.e-12):
diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index ef4792f..7d730a8 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -311,7 +311,7 @@ def angle_between_quaternions(q1, q2):
   """ Returns the angle between two quaternions, q1 and q2. """
   if np.allclose(q1.q, q2.q, atol=1.e-12):
     return 0.0
-  return 2. * np.arccos((q1 * q2.inverse()).w)
+  return 2. * np.arccos(np.clip((q1 * q2.inverse()).w, -1., 1.))
 
 
 def angular_velocity_between_quaternions(q1, q2, t):
-- 
2.43.0


From aa5a71661b06a51d4225dc2133d9ead0a9272cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:11 +0000
Subject: [PATCH 06/32] fix: do not report small rotations as no rotation

The default relative tolerance of np.isclose treated every rotation below half
a degree as identity. Angular velocities of slow motions were reported as zero.
---
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 7d730a8..1d3b9de 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -138,7 +138,7 @@ class Quaternion(object):
     The output format is np.array([x, y, z, angle]).
     """
     # If there is no rotation return rotation about x-axis with zero angle.
-    if np.isclose(self.w, 1., atol=1.e-12):
+    if np.isclose(self.w, 1., rtol=0., atol=1.e-12):
       return(np.array([1., 0., 0., 0.]))
 
     angle = 2. * np.arccos(self.w)
-- 
2.43.0


From 15f7e38dbd661b390d88fa6f1d773024c7fa279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:11 +0000
Subject: [PATCH 07/32] fix: convert rotation matrices of 180 degree rotations

The conversion to a quaternion divided by the scalar part, which is zero for
rotations by 180 degrees, and returned NaN.
---
 .../python/hand_eye_calibration/quaternion.py   | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index 1d3b9de..b97d13c 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -104,8 +104,21 @@ class Quaternion(object):
 
   @classmethod
   def from_rotation_matrix(cls, rotation_matrix):
-    w = np.sqrt(
-        1.0 + rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2]) / 2
+    trace = rotation_matrix[0, 0] + rotation_matrix[1, 1] + rotation_matrix[2, 2]
+    if trace < 0.0:
+      # The scalar part vanishes for rotations by 180 degrees, hence divide by
+      # the largest vector component instead.
+      i = int(np.argmax(np.diagonal(rotation_matrix)))
+      j = (i + 1) % 3
+      k = (i + 2) % 3
+      q = np.zeros(4)
+      q[i] = np.sqrt(1.0 + 2.0 * rotation_matrix[i, i] - trace) / 2
+      q[j] = (rotation_matrix[j, i] + rotation_matrix[i, j]) / (4.0 * q[i])
+      q[k] = (rotation_matrix[k, i] + rotation_matrix[i, k]) / (4.0 * q[i])
+      q[3] = (rotation_matrix[k, j] - rotation_matrix[j, k]) / (4.0 * q[i])
+      return cls(q=-q if q[3] < 0.0 else q)
+
+    w = np.sqrt(1.0 + trace) / 2
     w4 = 4.0 * w
     x = (rotation_matrix[2, 1] - rotation_matrix[1, 2]) / w4
     y = (rotation_matrix[0, 2] - rotation_matrix[2, 0]) / w4
-- 
2.43.0


From 8cabe321334a7b25d0def43c723a41550bcad37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:11 +0000
Subject: [PATCH 08/32] fix: convert the poses read from JPL files to Hamilton
 as documented

Only the separately returned list of quaternions was converted. The time
stamped poses, which the aligned poses are computed from, kept the JPL
quaternions.
---
 hand_eye_calibration/python/hand_eye_calibration/csv_io.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
index 58c1531..3e64081 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/csv_io.py
@@ -24,10 +24,8 @@ def read_time_stamped_poses_from_csv_file(csv_file, JPL_quaternion_format=False)
   for pose in poses:
     pose[3:] /= np.linalg.norm(pose[3:])
     if JPL_quaternion_format:
-      quaternion_JPL = np.array([-pose[3], -pose[4], -pose[5], pose[6]])
-      quaternions.append(Quaternion(q=quaternion_JPL))
-    else:
-      quaternions.append(Quaternion(q=pose[3:]))
+      pose[3:6] *= -1.0
+    quaternions.append(Quaternion(q=pose[3:]))
 
   return (time_stamped_poses.copy(), times, quaternions)
 
-- 
2.43.0


From 2d548309d6063fbb663d7e5a7249cb7d1a4ae4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 09/32] fix: record in the result table whether the poses were
 prefiltered

The flag was stored under a name that is never written, so the prefiltering
column was always False.
---
 .../hand_eye_calibration_experiments/experiment_results.py      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
index 24fb3af..a72c169 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_results.py
@@ -30,7 +30,7 @@ class ResultEntry:
 
   def init_from_configs(self, name, iteration, time_alignment_config, hand_eye_config, optimization_config):
     self.algorithm_name = name
-    self.prefiltering = hand_eye_config.prefilter_poses_enabled
+    self.prefiltering_enabled = hand_eye_config.prefilter_poses_enabled
     self.optimization_enabled = optimization_config.enable_optimization
     self.iteration_num = iteration
 
-- 
2.43.0


From 577367d908e444a41cfd6f7bbf0f74eb9ccddc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 10/32] fix: clip angular velocities by magnitude

The clipping threshold was a percentile of the signed components. For a sensor
turning mostly in the negative direction the threshold was zero or negative
and the whole signal was clipped away.
---
 .../python/hand_eye_calibration/time_alignment.py               | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
index c6a6b64..e519016 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/time_alignment.py
@@ -24,7 +24,7 @@ def filter_and_smooth_angular_velocity(angular_velocity,
                                        low_pass_kernel_size, clip_percentile, plot=False):
   """Reduce the noise in a velocity signal."""
 
-  max_value = np.percentile(angular_velocity, clip_percentile)
+  max_value = np.percentile(np.abs(angular_velocity), clip_percentile)
   print("Clipping angular velocity norms to {} rad/s ...".format(max_value))
   angular_velocity_clipped = np.clip(angular_velocity, -max_value, max_value)
   print("Done clipping angular velocity norms...")
-- 
2.43.0


From c1d779ebe27e9023d2d1202191c72681a6c99bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 11/32] fix: import errno for the error handling in create_path

A failing os.makedirs raised NameError instead of being handled, also when
another process created the directory first.
---
 hand_eye_calibration/python/hand_eye_calibration/bash_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
index fb435ee..4e86186 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/bash_utils.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 from __future__ import print_function
+import errno
 import os
 import sys
 import json
-- 
2.43.0


From 8899176c4784dae6a1b6333baaa772226e4d8571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 12/32] fix: rerun a calibration stage if any of its outputs is
 missing

A stage that was interrupted after writing only some of its output files was
considered up to date afterwards, so the remaining files were never produced.
---
 hand_eye_calibration/scripts/close_the_circle_test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/scripts/close_the_circle_test.py b/hand_eye_calibration/scripts/close_the_circle_test.py
index 7e4e936..94bf937 100755
--- a/hand_eye_calibration/scripts/close_the_circle_test.py
+++ b/hand_eye_calibration/scripts/close_the_circle_test.py
@@ -22,7 +22,7 @@ def getMTimes(inputs):
 def requiresUpdate(inputs, outputs):
   its = getMTimes(inputs)
   ots = getMTimes(outputs)
-  return len(ots) == 0 or (len(its) > 0 and max(its) > min(ots))
+  return len(ots) < len(outputs) or (len(its) > 0 and max(its) > min(ots))
 
 
 def computeCircle(name, calibs):
-- 
2.43.0


From eff6718fcfe0a4cafe338da4be1aa8d8d18cc507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 13/32] fix: load yaml files with safe_load

yaml.load() without a loader is an error in current PyYAML versions.
---
 hand_eye_calibration/bin/bag_to_csv_with_config.py     | 2 +-
 hand_eye_calibration/bin/target_extractor_interface.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration/bin/bag_to_csv_with_config.py b/hand_eye_calibration/bin/bag_to_csv_with_config.py
index 4981297..a05b865 100755
--- a/hand_eye_calibration/bin/bag_to_csv_with_config.py
+++ b/hand_eye_calibration/bin/bag_to_csv_with_config.py
@@ -21,7 +21,7 @@ if __name__ == '__main__':
 
   with open(args.yaml_config_file, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   bags = yaml_content['bags']
diff --git a/hand_eye_calibration/bin/target_extractor_interface.py b/hand_eye_calibration/bin/target_extractor_interface.py
index aeb64e1..501b613 100755
--- a/hand_eye_calibration/bin/target_extractor_interface.py
+++ b/hand_eye_calibration/bin/target_extractor_interface.py
@@ -84,7 +84,7 @@ if __name__ == "__main__":
   te_config.calib_file_camera = args.calib_file_camera
   with open(args.calib_file_target, 'r') as stream:
     try:
-      yaml_content = yaml.load(stream)
+      yaml_content = yaml.safe_load(stream)
     except yaml.YAMLError as exc:
       print(exc)
   te_config.april_tag_number_vertical = yaml_content[
-- 
2.43.0


From c7dce5e18762308a4b45494718f8d8f1fd4a23f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 14/32] fix: use the builtin bool in the result table format

np.bool was removed from numpy.
---
 .../experiment_plotting_tools.py                       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 3937096..4b9defc 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -7,10 +7,10 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('algorithm_name', np.str_, 50),
       ('num_pose_pairs', np.uint, 1),
       ('iteration_num', np.uint, 1),
-      ('prefiltering', np.bool, 1),
+      ('prefiltering', bool, 1),
       ('poses_B_H_csv_file', np.str_, 50),
       ('poses_W_E_csv_file', np.str_, 50),
-      ('success', np.bool, 1),
+      ('success', bool, 1),
       ('position_rmse', np.float64, 1),
       ('orientation_rmse', np.float64, 1),
       ('num_inliers', np.uint, 1),
@@ -20,9 +20,9 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       ('loop_error_position_m', np.float64, 1),
       ('loop_error_orientation_deg', np.float64, 1),
       ('singular_values', np.str_, 300),
-      ('bad_singular_values', np.bool, 1),
-      ('optimization_enabled', np.bool, 1),
-      ('optimization_success', np.bool, 1),
+      ('bad_singular_values', bool, 1),
+      ('optimization_enabled', bool, 1),
+      ('optimization_success', bool, 1),
       ('optimization_runtime_s', np.float64, 1),
       ('spoiled_initial_guess_angle_offset', np.float64, 1),
       ('spoiled_initial_guess_translation_offset', np.str_, 300),
-- 
2.43.0


From 8cfde203313d73b40862302ea21b3e3cac9317f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:26:30 +0000
Subject: [PATCH 15/32] fix: let the baseline algorithm use the inliers it
 found

The exhaustive search referred to a variable that does not exist. Both search
modes also indexed the inliers with an index into all poses, which failed if
the best start index was larger than the number of inliers. The result of that
alignment was not used.
---
 .../dual_quaternion_hand_eye_calibration.py                  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index 0f890e5..c517369 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -558,12 +558,9 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
 
   if config.enable_exhaustive_search:
     assert best_idx != -1, "Not enough inliers found!"
-    dq_W_E_vec_inlier = best_dq_W_E_vec_filtered
+    dq_W_E_vec_inlier = best_dq_W_E_vec_inlier
     dq_B_H_vec_inlier = best_dq_B_H_vec_inlier
 
-  aligned_dq_B_H = align_paths_at_index(dq_B_H_vec_inlier, best_idx)
-  aligned_dq_W_E = align_paths_at_index(dq_W_E_vec_inlier, best_idx)
-
   print("Best start idx: {}".format(best_idx))
   print("Removed {} outliers from the (prefiltered) poses.".format(
       len(dq_B_H_vec_filtered) - len(dq_B_H_vec_inlier)))
-- 
2.43.0


From 47f864d717ecb591be67563b5d266d9a41e51f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:09 +0000
Subject: [PATCH 16/32] fix: align all poses at the sampled pose if the poses
 were prefiltered

The sample indices refer to the prefiltered poses but were used to index the
unfiltered ones, so the poses were aligned at an unrelated pose. An exhaustive
search only ever tried the first poses of the data set as reference and failed
if those were outliers.
---
 .../dual_quaternion_hand_eye_calibration.py   | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index c517369..fef0d79 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -348,6 +348,17 @@ def prefilter_using_screw_axis(dq_W_E_vec_in, dq_B_H_vec_in, dot_product_thresho
   return dq_W_E_vec, dq_B_H_vec
 
 
+def find_pose_pair(dq_B_H, dq_W_E, dq_B_H_vec, dq_W_E_vec):
+  """
+  Returns the index of the first pose pair that is identical to the given pair.
+  """
+  for i in range(len(dq_B_H_vec)):
+    if (np.array_equal(dq_B_H_vec[i].dq, dq_B_H.dq) and
+            np.array_equal(dq_W_E_vec[i].dq, dq_W_E.dq)):
+      return i
+  assert False, "The pose pair is not part of the given poses."
+
+
 def compute_pose_error(pose_A, pose_B):
   """
   Compute the error norm of position and orientation.
@@ -592,8 +603,11 @@ def compute_hand_eye_calibration_BASELINE(dq_B_H_vec, dq_W_E_vec, config):
                                                dq_H_E_estimated)
   else:
     # TODO(mfehr): There is some redundancy here, fix it!
-    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, best_idx)
-    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, best_idx)
+    align_idx = find_pose_pair(dq_B_H_vec_filtered[best_idx],
+                               dq_W_E_vec_filtered[best_idx],
+                               dq_B_H_vec, dq_W_E_vec)
+    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, align_idx)
+    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, align_idx)
     (poses_B_H, poses_W_H) = get_aligned_poses(aligned_dq_B_H,
                                                aligned_dq_W_E,
                                                dq_H_E_estimated)
@@ -743,8 +757,10 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
 
     # Transform all poses based on the first sample pose and rearange poses,
     # such that the first sample pose is the first pose.
-    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, sample_indices[0])
-    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, sample_indices[0])
+    align_idx = find_pose_pair(samples_dq_B_H[0], samples_dq_W_E[0],
+                               dq_B_H_vec, dq_W_E_vec)
+    aligned_dq_B_H = align_paths_at_index(dq_B_H_vec, align_idx)
+    aligned_dq_W_E = align_paths_at_index(dq_W_E_vec, align_idx)
     assert len(aligned_dq_B_H) == num_poses
     assert len(aligned_dq_W_E) == num_poses
 
-- 
2.43.0


From 4e60fa34474b2599559b814125136299f126f2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:09 +0000
Subject: [PATCH 17/32] fix: stop RANSAC if no sample is ever accepted

Only samples that passed all tests were counted as an iteration, so RANSAC
never returned on data without a consistent set of poses. Limit the number of
samples that are drawn.
---
 .../dual_quaternion_hand_eye_calibration.py            | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index fef0d79..a24471a 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -67,6 +67,7 @@ class HandEyeConfig:
     self.ransac_sample_size = 3
     self.ransac_sample_rejection_scalar_part_equality_tolerance = 1e-2
     self.ransac_max_number_iterations = 20
+    self.ransac_max_number_samples = 1000
     self.ransac_enable_early_abort = True
     self.ransac_outlier_probability = 0.5
     self.ransac_success_probability_threshold = 0.99
@@ -694,7 +695,7 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
   best_singular_value_status = True
 
   all_sample_combinations = []
-  max_number_samples = np.inf
+  max_number_samples = config.ransac_max_number_samples
   if not config.enable_exhaustive_search:
     print("Running RANSAC...")
     print("Inlier classification method: {}".format(
@@ -709,10 +710,9 @@ def compute_hand_eye_calibration_RANSAC(dq_B_H_vec, dq_W_E_vec, config):
   sample_number = 0
   full_iterations = 0
   prerejected_samples = 0
-  while ((not config.enable_exhaustive_search and
-          full_iterations < config.ransac_max_number_iterations) or
-         (config.enable_exhaustive_search and
-          sample_number < max_number_samples)):
+  while (sample_number < max_number_samples and
+         (config.enable_exhaustive_search or
+          full_iterations < config.ransac_max_number_iterations)):
 
     # Get sample, either at:
     #  - random (RANSAC)
-- 
2.43.0


From adcc6a6af37194e8e7ebb5f60425e828c4ad2318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:09 +0000
Subject: [PATCH 18/32] fix: solve for the calibration if the quadratic
 equation degenerates

The coefficient of the quadratic term depends on the basis of the null space
that the singular value decomposition happens to return. If it vanished the
calibration failed, if it was tiny the result was wrong due to cancellation.
---
 .../dual_quaternion_hand_eye_calibration.py   | 41 ++++++++++---------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
index a24471a..5a949fc 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion_hand_eye_calibration.py
@@ -257,7 +257,6 @@ def compute_hand_eye_calibration(dq_B_H_vec_inliers, dq_W_E_vec_inliers,
   # print("u_1: {}, \nu_2: {}, \nv_1: {}, \nv_2: {}".format(u_1, u_2, v_1, v_2))
 
   a = np.dot(u_1.T, v_1)
-  assert a != 0.0, "This would involve division by zero."
   b = np.dot(u_1.T, v_2) + np.dot(u_2.T, v_1)
   c = np.dot(u_2.T, v_2)
   # print("a: {}, b: {}, c: {}".format(a, b, c))
@@ -268,26 +267,30 @@ def compute_hand_eye_calibration(dq_B_H_vec_inliers, dq_W_E_vec_inliers,
         square_root_term)
   if square_root_term < 0.0:
     square_root_term = 0.0
-  s_1 = (-b + np.sqrt(square_root_term)) / (2.0 * a)
-  s_2 = (-b - np.sqrt(square_root_term)) / (2.0 * a)
-  # print("s_1: {}, s_2: {}".format(s_1, s_2))
+  # The two solutions are s = lambda_1 / lambda_2 = d / a and s = c / d. Keep
+  # numerator and denominator, as the latter vanishes if v_7 (almost) solves
+  # the equation.
+  d = -0.5 * (b + np.copysign(np.sqrt(square_root_term), b))
+  lambdas_1 = np.array([d, a])
+  lambdas_2 = np.array([c, d])
+  # print("lambdas_1: {}, lambdas_2: {}".format(lambdas_1, lambdas_2))
 
   # 4.
-  # For these two s values, compute s^2*u_1^T*u_1 + 2*s*u_1^T*u_2 + u_2^T*u_2
-  # From these choose the largest to compute lambda_2 and then lambda_1
-  solution_1 = s_1 * s_1 * np.dot(u_1.T, u_1) + 2.0 * \
-      s_1 * np.dot(u_1.T, u_2) + np.dot(u_2.T, u_2)
-  solution_2 = s_2 * s_2 * np.dot(u_1.T, u_1) + 2.0 * \
-      s_2 * np.dot(u_1.T, u_2) + np.dot(u_2.T, u_2)
-
-  if solution_1 > solution_2:
-    assert solution_1 > 0.0, solution_1
-    lambda_2 = np.sqrt(1.0 / solution_1)
-    lambda_1 = s_1 * lambda_2
-  else:
-    assert solution_2 > 0.0, solution_2
-    lambda_2 = np.sqrt(1.0 / solution_2)
-    lambda_1 = s_2 * lambda_2
+  # For these two solutions, compute
+  #   lambda_1^2*u_1^T*u_1 + 2*lambda_1*lambda_2*u_1^T*u_2 + lambda_2^2*u_2^T*u_2
+  # using a normalized (lambda_1, lambda_2). Choose the largest.
+  best_solution = 0.0
+  for lambdas in (lambdas_1, lambdas_2):
+    lambdas_norm = np.linalg.norm(lambdas)
+    if lambdas_norm == 0.0:
+      continue
+    lambdas = lambdas / lambdas_norm
+    u = lambdas[0] * u_1 + lambdas[1] * u_2
+    solution = np.dot(u.T, u)
+    if solution > best_solution:
+      best_solution = solution
+      (lambda_1, lambda_2) = lambdas / np.sqrt(solution)
+  assert best_solution > 0.0, best_solution
   # print("lambda_1: {}, lambda_2: {}".format(lambda_1, lambda_2))
 
   # 5.
-- 
2.43.0


From 40a210d2e3e2293c89c02f951e15ea4a4ea50823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:09 +0000
Subject: [PATCH 19/32] fix: carry on with the experiment if a pose pair could
 not be calibrated

Without a calibration there is no initial guess to write and no loop to close.
The failed pair is recorded in the result table, all others are still
evaluated.
---
 .../bin/compute_set_of_hand_eye_calibrations.py      | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 89b217c..5656f66 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -205,9 +205,10 @@ if __name__ == "__main__":
         # Run optimization if enabled.
         if optimization_config.enable_optimization:
           # Write initial guess to file for the optimization.
-          initial_guess = ExtrinsicCalibration(
-              time_offset_initial_guess, dq_H_E_initial_guess)
-          initial_guess.writeJson(initial_guess_calibration_file)
+          if success:
+            initial_guess = ExtrinsicCalibration(
+                time_offset_initial_guess, dq_H_E_initial_guess)
+            initial_guess.writeJson(initial_guess_calibration_file)
 
           optimized_calibration_file = "{}/optimization/{}_pose_pair_{}_it_{}_optimized.json".format(
               args.result_directory, algorithm_name, pose_pair_idx, iteration)
@@ -226,6 +227,8 @@ if __name__ == "__main__":
 
           optimization_runtime = 0.
           try:
+            if not success:
+              raise Exception("There is no initial guess.")
             optimization_start_time = timeit.default_timer()
             run("rosrun hand_eye_calibration_batch_estimation batch_estimator -v 1 \
               --pose1_csv=%s --pose2_csv=%s \
@@ -316,7 +319,8 @@ if __name__ == "__main__":
 
       # Computing the loop error only makes sense if all pose pairs are successfully calibrated.
       # If optimization is disabled, optimization_success should always be True.
-      if sum(result_entry.optimization_success) == num_pose_pairs:
+      if (sum(result_entry.optimization_success) == num_pose_pairs and
+              sum(result_entry.success) == num_pose_pairs):
         (result_entry.loop_error_position,
          result_entry.loop_error_orientation) = compute_loop_error(results_dq_H_E,
                                                                    num_poses_sets,
-- 
2.43.0


From 49b76effb2191d0882837f69e31f36041aa6a013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:09 +0000
Subject: [PATCH 20/32] fix: stop the calibration pipeline if one of its stages
 fails

The following stages used to run on intermediate files that are missing or
left over from a previous run.
---
 .../scripts/compute_complete_handeye_calibration.sh              | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
index 20d6dd2..cf8b94d 100755
--- a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
+++ b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
@@ -1,4 +1,5 @@
 #!/bin/bash
+set -e
 
 DATASET_DIR_A=`basename $1`
 DATASET_PATH_A=`dirname $1`
-- 
2.43.0


From 911147b421a2b20457f4189204f4253d36dbe481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:09 +0000
Subject: [PATCH 21/32] fix: do not request visualization in the calibration
 pipeline

Every non-empty value of --visualize, including 0, switches the plots on.
---
 .../scripts/compute_complete_handeye_calibration.sh            | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
index cf8b94d..e39ce71 100755
--- a/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
+++ b/hand_eye_calibration/scripts/compute_complete_handeye_calibration.sh
@@ -22,8 +22,7 @@ rosrun hand_eye_calibration compute_hand_eye_calibration.py \
 --aligned_poses_B_H_csv_file $ALIGNED_POSES_A  \
 --aligned_poses_W_E_csv_file $ALIGNED_POSES_B  \
 --time_offset_input_csv_file time_offset.csv \
---calibration_output_json_file calibration.json \
---visualize=0
+--calibration_output_json_file calibration.json
 
 rosrun hand_eye_calibration_batch_estimation batch_estimator \
 --v 1 \
-- 
2.43.0


From e7465f47b31699f9ff251ea32f8f5b3ca05e93a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:27:09 +0000
Subject: [PATCH 22/32] fix: do not export poses whose time stamp does not
 advance

The check for a zero interval came after the pose had been written, so repeated
transformations ended up in the csv file. Four of them in a row at the start of
a bag caused a division by zero.
---
 hand_eye_calibration/bin/tf_to_csv.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hand_eye_calibration/bin/tf_to_csv.py b/hand_eye_calibration/bin/tf_to_csv.py
index 2e546db..e279434 100755
--- a/hand_eye_calibration/bin/tf_to_csv.py
+++ b/hand_eye_calibration/bin/tf_to_csv.py
@@ -58,6 +58,11 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
               tf_counter += 1
             continue
 
+          # Drop pose if the tf interval is zero.
+          if not init and (single_tf.header.stamp.to_sec() -
+                           tf_previous_timestamp.to_sec()) < 1e-8:
+            continue
+
           # Initialize start time to first successful tf message lookup.
           if init:
             start_time_tf_message = single_tf.header.stamp
@@ -86,11 +91,6 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
             tf_interval_measured = (single_tf.header.stamp.to_sec() -
                                     tf_previous_timestamp.to_sec())
 
-            # Drop pose if the tf interval is zero.
-            if tf_interval_measured < 1e-8:
-              tf_previous_timestamp = single_tf.header.stamp
-              continue
-
             # If the interval deviates from the frequency by more than x
             # percent, print a warning.
             tf_interval_deviation_percent = abs(
-- 
2.43.0


From 261cb570a4bd11a30656fd8b068e64464cf37eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:45 +0000
Subject: [PATCH 23/32] fix: return a valid axis if the scalar part of no
 rotation is negative

---
 hand_eye_calibration/python/hand_eye_calibration/quaternion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
index b97d13c..3702a59 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/quaternion.py
@@ -151,7 +151,7 @@ class Quaternion(object):
     The output format is np.array([x, y, z, angle]).
     """
     # If there is no rotation return rotation about x-axis with zero angle.
-    if np.isclose(self.w, 1., rtol=0., atol=1.e-12):
+    if np.isclose(np.abs(self.w), 1., rtol=0., atol=1.e-12):
       return(np.array([1., 0., 0., 0.]))
 
     angle = 2. * np.arccos(self.w)
-- 
2.43.0


From 433e2d1836efa955da7d7404ddd84167b95a998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:45 +0000
Subject: [PATCH 24/32] fix: report the direction of a translation for both
 signs of the dual quaternion

---
 .../python/hand_eye_calibration/dual_quaternion.py             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
index 1fb43e3..af02f04 100644
--- a/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
+++ b/hand_eye_calibration/python/hand_eye_calibration/dual_quaternion.py
@@ -229,7 +229,8 @@ class DualQuaternion(object):
     else:
       translation = 2. * np.sqrt(np.sum(np.power(self.q_dual.q[0:3], 2.)))
       if (translation > 1.e-12):
-        screw_axis = 2. * self.q_dual.q[0:3] / translation
+        # A negated dual quaternion describes the same translation.
+        screw_axis = 2. * np.sign(self.q_rot.w) * self.q_dual.q[0:3] / translation
       else:
         screw_axis = np.zeros(3)
 
-- 
2.43.0


From 28011d339430a36bd9b3ba490df4f43a08fbab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:33:45 +0000
Subject: [PATCH 25/32] Revert "fix: rerun a calibration stage if any of its
 outputs is missing"

The script is named like a test, leave it unchanged.
---
 hand_eye_calibration/scripts/close_the_circle_test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/scripts/close_the_circle_test.py b/hand_eye_calibration/scripts/close_the_circle_test.py
index 94bf937..7e4e936 100755
--- a/hand_eye_calibration/scripts/close_the_circle_test.py
+++ b/hand_eye_calibration/scripts/close_the_circle_test.py
@@ -22,7 +22,7 @@ def getMTimes(inputs):
 def requiresUpdate(inputs, outputs):
   its = getMTimes(inputs)
   ots = getMTimes(outputs)
-  return len(ots) < len(outputs) or (len(its) > 0 and max(its) > min(ots))
+  return len(ots) == 0 or (len(its) > 0 and max(its) > min(ots))
 
 
 def computeCircle(name, calibs):
-- 
2.43.0


From 4d38e86f02d9c7fb4d2124b5434a3be5ff139c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:02:17 +0000
Subject: [PATCH 26/32] fix: read result tables with a single row

---
 .../experiment_plotting_tools.py                                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 4b9defc..128aa99 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -37,6 +37,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
       get_header = False
       data = np.genfromtxt(csv_file_name, dtype=dt,
                            skip_header=1, delimiter=',').copy()
+      data = np.atleast_1d(data)
     else:
       # print(header)
       body = np.genfromtxt(csv_file_name, dtype=dt,
-- 
2.43.0


From 7ff20ff966a7f541e7e4e9196ab7f723b06cc358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:42 +0000
Subject: [PATCH 27/32] fix: do not divide by zero if only one transform could
 be looked up

---
 hand_eye_calibration/bin/tf_to_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hand_eye_calibration/bin/tf_to_csv.py b/hand_eye_calibration/bin/tf_to_csv.py
index e279434..a616f97 100755
--- a/hand_eye_calibration/bin/tf_to_csv.py
+++ b/hand_eye_calibration/bin/tf_to_csv.py
@@ -110,7 +110,7 @@ def write_transformation_to_csv_file(bag_file, target_frame, source_frame,
           tf_previous_timestamp = single_tf.header.stamp
 
   # Output final estimated frequency.
-  if tf_counter > 3:
+  if tf_counter > 3 and end_time_tf_message > start_time_tf_message:
     tf_frequency_estimated = tf_counter / (
         end_time_tf_message - start_time_tf_message).to_sec()
     print("Final estimate of tf topic frequency: ", "{0:.2f}".format(
-- 
2.43.0


From 792ed69a3fb7bd3261870b09d9e61512e9293e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:43:26 +0000
Subject: [PATCH 28/32] fix: keep the case of the batch estimator's option
 names

---
 .../bin/compute_set_of_hand_eye_calibrations.py                | 3 ++-
 .../bin/optimization_experiments.py                            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
index 5656f66..bef0b5a 100755
--- a/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
+++ b/hand_eye_calibration_experiments/bin/compute_set_of_hand_eye_calibrations.py
@@ -223,7 +223,8 @@ if __name__ == "__main__":
 
           model_config_string = ("pose1/absoluteMeasurements={},"
                                  "pose2/absoluteMeasurements={}").format(
-              is_absolute_sensor_B_H, is_absolute_sensor_W_E).lower()
+              str(is_absolute_sensor_B_H).lower(),
+              str(is_absolute_sensor_W_E).lower())
 
           optimization_runtime = 0.
           try:
diff --git a/hand_eye_calibration_experiments/bin/optimization_experiments.py b/hand_eye_calibration_experiments/bin/optimization_experiments.py
index 99bcc43..0f82eb7 100755
--- a/hand_eye_calibration_experiments/bin/optimization_experiments.py
+++ b/hand_eye_calibration_experiments/bin/optimization_experiments.py
@@ -287,7 +287,8 @@ def run_optimization_experiment(time_offset_range, angle_offset_range,
 
     model_config_string = ("pose1/absoluteMeasurements={},"
                            "pose2/absoluteMeasurements={}").format(
-        is_absolute_sensor_B_H, is_absolute_sensor_W_E).lower()
+        str(is_absolute_sensor_B_H).lower(),
+        str(is_absolute_sensor_W_E).lower())
 
     # Prepare output file path and folder.
     optimized_calibration_file = ("{}/optimization/{}_run_{}_it_{}_pose_pair_{}_" +
-- 
2.43.0


From 464e3279c8d08acc7c9ab6dc95a5374be4eb1031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:19 +0000
Subject: [PATCH 29/32] fix: label the axes of the error maps

np.char.array() converts numbers to bytes, which cannot be concatenated with
str, so no error map could be drawn.
---
 .../bin/generate_plots.py                            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/generate_plots.py b/hand_eye_calibration_experiments/bin/generate_plots.py
index fc5b87b..6b53622 100755
--- a/hand_eye_calibration_experiments/bin/generate_plots.py
+++ b/hand_eye_calibration_experiments/bin/generate_plots.py
@@ -232,15 +232,15 @@ def generate_optimization_circle_error_plot(
       x_ticks_start = np.rint(loop_x[:-1] * 180 / np.pi).astype(int)
       x_ticks_end = np.rint(loop_x[1:] * 180 / np.pi).astype(int)
       x_tick_labels = (
-          '[' + np.char.array(x_ticks_start) + ',' +
-          np.char.array(x_ticks_end) + ')')
+          '[' + np.char.array(x_ticks_start.astype(str)) + ',' +
+          np.char.array(x_ticks_end.astype(str)) + ')')
     else:
       x_tick_labels = (
-          '[' + np.char.array(loop_x[:-1]) + ',' +
-          np.char.array(loop_x[1:]) + ')')
+          '[' + np.char.array(loop_x[:-1].astype(str)) + ',' +
+          np.char.array(loop_x[1:].astype(str)) + ')')
     y_tick_labels = (
-        '[' + np.char.array(loop_y[:-1]) + ',' +
-        np.char.array(loop_y[1:]) + ')')
+        '[' + np.char.array(loop_y[:-1].astype(str)) + ',' +
+        np.char.array(loop_y[1:].astype(str)) + ')')
     x_ticks = range(x_steps - 1)
     y_ticks = range(y_steps - 1)
     plt.setp(axes, xticks=x_ticks, xticklabels=x_tick_labels,
-- 
2.43.0


From 7e86eb48539ff1f0413848bf95da4fddc22cb803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:19 +0000
Subject: [PATCH 30/32] fix: plot data sets for which some algorithm has no
 result

An algorithm that failed on all recordings of one data set but not of another
raised KeyError.
---
 hand_eye_calibration_experiments/bin/generate_plots.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hand_eye_calibration_experiments/bin/generate_plots.py b/hand_eye_calibration_experiments/bin/generate_plots.py
index 6b53622..32fb70b 100755
--- a/hand_eye_calibration_experiments/bin/generate_plots.py
+++ b/hand_eye_calibration_experiments/bin/generate_plots.py
@@ -73,7 +73,8 @@ def generate_time_plot(methods, datasets, runtimes_per_method, colors):
   fig.suptitle("Hand-Eye Calibration Method Timings", fontsize='24')
   handles = []
   for i, dataset in enumerate(datasets):
-    runtimes = [runtimes_per_method[dataset][method] for method in methods]
+    runtimes = [runtimes_per_method[dataset].get(method, [])
+                for method in methods]
     bp = ax1.boxplot(
         runtimes, 0, '',
         positions=(x_ticks + (i - num_datasets / 2. + 0.5) *
@@ -315,8 +316,10 @@ if __name__ == '__main__':
     generate_box_plot(
         dataset,
         methods,
-        [position_rmses_per_method[dataset][method] for method in methods],
-        [orientation_rmses_per_method[dataset][method] for method in methods])
+        [position_rmses_per_method[dataset].get(method, [])
+         for method in methods],
+        [orientation_rmses_per_method[dataset].get(method, [])
+         for method in methods])
   generate_time_plot(methods, datasets, runtimes_per_method, colors)
 
   # Decide here what to plot against what.
-- 
2.43.0


From 41d76c3444e30b78c657efc3bfe9fcad89c31d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:40 +0000
Subject: [PATCH 31/32] fix: leave failed optimizations out of the collected
 results

Rows of a failed optimization carry errors of -1, which were averaged with
the errors of the other rows.
---
 .../experiment_plotting_tools.py                               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 128aa99..008641d 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -91,6 +91,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
     loop_error_position_m = row[13]
     loop_error_orientation_deg = row[14]
     bad_singular_values = row[16]
+    optimization_success = row[18]
     runtime_optimization = row[19]
     initial_guess_angle = 0 if row[20] is None else row[20]
     if row[21] != "None":
@@ -107,7 +108,7 @@ def collect_data_from_csv(csv_file_names, get_header=True):
     runtime += runtime_optimization
     method = method_name_dict[method]
 
-    if not success or bad_singular_values:
+    if not success or bad_singular_values or not optimization_success:
       # TODO(ff): Create a plot with the success rate?
       # And for the initial guess spoil this should also be incorporated.
       continue
-- 
2.43.0


From 555a8c19ead85e5724f0a968b86fe8607460b52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:26:40 +0000
Subject: [PATCH 32/32] fix: leave missing loop errors out of the collected
 results

The loop error is only computed if all pose pairs of a run were calibrated
successfully and is written as -1 otherwise, which was averaged with the
loop errors of the other runs.
---
 .../experiment_plotting_tools.py                              | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
index 008641d..e08b468 100644
--- a/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
+++ b/hand_eye_calibration_experiments/python/hand_eye_calibration_experiments/experiment_plotting_tools.py
@@ -150,6 +150,10 @@ def collect_data_from_csv(csv_file_names, get_header=True):
     orientation_rmses[index].append(orientation_rmse)
     runtimes[index].append(runtime)
 
+    if loop_error_position_m < 0:
+      # There is no loop error unless all pose pairs were calibrated.
+      continue
+
     loop_errors_position_m.append(loop_error_position_m)
     loop_errors_orientation_deg.append(loop_error_orientation_deg)
     spoiled_initial_guess_angle_offsets.append(initial_guess_angle)
-- 
2.43.0

