From dfce636cd1c4bfa0a2744f64f381447fe13a6f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:30 +0000
Subject: [PATCH 01/24] fix: start AB2 correctly when there are dumbbells

The first AB2 timestep compared the frame number with the name of the backup
file instead of the frame the run starts from, so every AB2 run with dumbbells
stopped with a TypeError.
---
 stokesian_dynamics/run_simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 96a4ddb..5a629c6 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -279,7 +279,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
                     Ub_out_k1, HalfDUb_out_k1, Ea_out_k1, U_infinity_k1, O_infinity_k1,
                     dumbbell_positions, dumbbell_deltax, centre_of_background_flow)
-                if timestepping_scheme == "euler" or frameno - checkpoint_filename == 0:
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_dumbbell_positions = euler_timestep(
                         dumbbell_positions, Ub_out_plus_infinities_k1, timestep)
                     new_dumbbell_deltax = euler_timestep(
-- 
2.43.0


From 1fb7f6c948012c862812456b1ce79e7101cb1aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:30 +0000
Subject: [PATCH 02/24] fix: never leave a half-written backup or result file

Backup and result files were written in place. A run which was killed, lost
power or ran out of disk space while saving destroyed the previous backup and
left an unreadable file. Write to a separate file first, then rename it.
---
 stokesian_dynamics/functions/shared.py | 15 +++++++++++++++
 stokesian_dynamics/run_simulation.py   | 22 +++++++++++-----------
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index ba09bbf..4346ff3 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -4,6 +4,7 @@
 
 import numpy as np
 from numpy import sqrt
+import os
 import time
 import sys
 from numba import njit
@@ -515,3 +516,17 @@ def close_particles(bead_positions, bead_sizes, cutoff_factor,
 
     return (np.array(closer_than_cutoff), np.array(displacements_pairs_scaled),
             np.array(distances_pairs_scaled), np.array(size_ratios))
+
+
+def save_arrays(filename, **arrays):
+    """Save arrays to a compressed NPZ file, replacing it in a single step.
+
+    The data is written to disk under a different name first, so that if the
+    run is interrupted while saving, `filename` is left as it was.
+    """
+    part_filename = filename + ".part"
+    with open(part_filename, "wb") as part_file:
+        np.savez_compressed(part_file, **arrays)
+        part_file.flush()
+        os.fsync(part_file.fileno())
+    os.replace(part_filename, filename)
diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 5a629c6..61c9c67 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -22,7 +22,7 @@ import numba
 from functions.email import send_email
 from functions.shared import (posdata_data, format_elapsed_time, throw_error,
                               throw_warning, feed_particles_from_bottom,
-                              sizeof_fmt)
+                              sizeof_fmt, save_arrays)
 from functions.timestepping import (
     euler_timestep, ab2_timestep, did_something_go_wrong_with_dumbells,
     euler_timestep_rotation, ab2_timestep_rotation, do_we_have_all_size_ratios,
@@ -652,11 +652,11 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 save_forces_every_n_timesteps > 0 and
                 save_forces_and_positions_to_temp_file_as_well and
                 frameno >= start_saving_after_first_n_timesteps):
-            np.savez_compressed(output_folder + '/' + filename + legion_random_id + '_TEMP',
-                                Fa=saved_Fa_out, Fb=saved_Fb_out, DFb=saved_DFb_out, Sa=saved_Sa_out,
-                                centres=saved_element_positions, deltax=saved_deltax,
-                                force_on_wall_due_to_dumbbells=saved_force_on_wall_due_to_dumbbells,
-                                sphere_rotations=saved_sphere_rotations)
+            save_arrays(output_folder + '/' + filename + legion_random_id + '_TEMP.npz',
+                        Fa=saved_Fa_out, Fb=saved_Fb_out, DFb=saved_DFb_out, Sa=saved_Sa_out,
+                        centres=saved_element_positions, deltax=saved_deltax,
+                        force_on_wall_due_to_dumbbells=saved_force_on_wall_due_to_dumbbells,
+                        sphere_rotations=saved_sphere_rotations)
         save_elapsed_time = time.time() - save_time_start
         print("[" + format_elapsed_time(save_elapsed_time) + "]", end=" ")
 
@@ -908,11 +908,11 @@ if error == 0:
 
     # Final save
     if save_forces_every_n_timesteps > 0 or save_positions_every_n_timesteps > 0:
-        np.savez_compressed(output_folder + '/' + filename + legion_random_id + '',
-                            Fa=saved_Fa_out, Fb=saved_Fb_out, DFb=saved_DFb_out, Sa=saved_Sa_out,
-                            centres=saved_element_positions, deltax=saved_deltax,
-                            force_on_wall_due_to_dumbbells=saved_force_on_wall_due_to_dumbbells,
-                            sphere_rotations=saved_sphere_rotations)
+        save_arrays(output_folder + '/' + filename + legion_random_id + '.npz',
+                    Fa=saved_Fa_out, Fb=saved_Fb_out, DFb=saved_DFb_out, Sa=saved_Sa_out,
+                    centres=saved_element_positions, deltax=saved_deltax,
+                    force_on_wall_due_to_dumbbells=saved_force_on_wall_due_to_dumbbells,
+                    sphere_rotations=saved_sphere_rotations)
         # Remove backup file
         backup_file = output_folder + '/' + filename + legion_random_id + '_TEMP.npz'
         if os.path.exists(backup_file):
-- 
2.43.0


From f7b9d7f35c8db3780a805dea3252013db568f3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:41 +0000
Subject: [PATCH 03/24] fix: save at any starting frame and with one kind of
 saving off

The first saved row was only set up when the first frame to be saved was
exactly the frame saving starts after, so a start which is not a multiple of
the saving interval stopped the run with a ValueError. Turning off only one of
position and force saving stopped it with a NameError at the final save.
---
 stokesian_dynamics/run_simulation.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 61c9c67..bcfa8fd 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -74,6 +74,13 @@ error = False
 previous_step_posdata = posdata
 previous_timestamp = time.time()
 saved_element_positions = np.array([])
+saved_sphere_rotations = np.array([])
+saved_deltax = np.array([])
+saved_Fa_out = np.array([])
+saved_Fb_out = np.array([])
+saved_DFb_out = np.array([])
+saved_Sa_out = np.array([])
+saved_force_on_wall_due_to_dumbbells = np.array([])
 times = [0 for _ in range(num_frames)]
 output_folder = "output"
 legion_random_id = ""
@@ -603,7 +610,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             and frameno % save_positions_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if len(saved_element_positions) == 0:
                 saved_element_positions = np.array([element_positions])
                 saved_sphere_rotations = np.array([sphere_rotations])
                 saved_deltax = np.array([dumbbell_deltax])
@@ -628,7 +635,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
             and frameno % save_forces_every_n_timesteps == 0
             and frameno >= start_saving_after_first_n_timesteps
         ):
-            if frameno == start_saving_after_first_n_timesteps:  # usually 0
+            if len(saved_Fa_out) == 0:
                 saved_Fa_out = np.array([Fa_out])
                 saved_Fb_out = np.array([Fb_out])
                 saved_DFb_out = np.array([DFb_out])
@@ -651,7 +658,7 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 frameno % save_to_temp_file_every_n_timesteps == 0 and
                 save_forces_every_n_timesteps > 0 and
                 save_forces_and_positions_to_temp_file_as_well and
-                frameno >= start_saving_after_first_n_timesteps):
+                len(saved_element_positions) > 0):
             save_arrays(output_folder + '/' + filename + legion_random_id + '_TEMP.npz',
                         Fa=saved_Fa_out, Fb=saved_Fb_out, DFb=saved_DFb_out, Sa=saved_Sa_out,
                         centres=saved_element_positions, deltax=saved_deltax,
-- 
2.43.0


From eee16af5238d404c7b895fab50548f8c9cd455b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:12 +0000
Subject: [PATCH 04/24] fix: continue from a backup at the frame and
 orientation it was saved

A continued run started one frame after the frame its positions belong to (and
at a completely different frame if positions are not saved every timestep),
with the spheres turned back to their default orientation, so its results were
not those of an uninterrupted run.
---
 stokesian_dynamics/run_simulation.py   | 21 +++++++--------
 stokesian_dynamics/setups/positions.py | 36 +++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 17 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index bcfa8fd..543ce60 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -31,7 +31,7 @@ from functions.timestepping import (
     wrap_around, add_background_flow_spheres, add_background_flow_dumbbells)
 from setups.inputs import input_ftsuoe
 from setups.positions import (posdata, setup_description, checkpoint_filename,
-                              checkpoint_start_from_frame)
+                              checkpoint_data, checkpoint_start_from_frame)
 from settings import (
     cutoff_factor, num_frames, view_graphics, viewbox_bottomleft_topright,
     printout, setup_number,
@@ -796,16 +796,15 @@ if error == 0:
                     + descdash + str(desc))
     else:
         filename = checkpoint_filename.replace("output\\", "").replace("output/", "").replace("_TEMP.npz", "")
-        with np.load(checkpoint_filename) as saved_data:
-            saved_Fa_out = saved_data['Fa']
-            saved_Fb_out = saved_data['Fb']
-            saved_DFb_out = saved_data['DFb']
-            saved_Sa_out = saved_data['Sa']
-            saved_element_positions = saved_data['centres']
-            saved_sphere_rotations = saved_data['sphere_rotations']
-            saved_deltax = saved_data['deltax']
-            saved_force_on_wall_due_to_dumbbells = saved_data[
-                'force_on_wall_due_to_dumbbells']
+        saved_Fa_out = checkpoint_data['Fa']
+        saved_Fb_out = checkpoint_data['Fb']
+        saved_DFb_out = checkpoint_data['DFb']
+        saved_Sa_out = checkpoint_data['Sa']
+        saved_element_positions = checkpoint_data['centres']
+        saved_sphere_rotations = checkpoint_data['sphere_rotations']
+        saved_deltax = checkpoint_data['deltax']
+        saved_force_on_wall_due_to_dumbbells = checkpoint_data[
+            'force_on_wall_due_to_dumbbells']
 
     warning_formatting_start = "\033[43m\033[30m"
     warning_formatting_end = "\033[39m\033[49m"
diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index bb6b78d..c50ec3c 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -12,7 +12,10 @@ import numpy as np
 from functions.shared import (add_sphere_rotations_to_positions, same_setup_as,
                               throw_error)
 import glob
-from settings import setup_number, input_number, num_frames, timestep
+from settings import (setup_number, input_number, num_frames, timestep,
+                      save_positions_every_n_timesteps,
+                      save_forces_every_n_timesteps,
+                      start_saving_after_first_n_timesteps)
 from setups.tests.positions import pos_setup_tests
 from setups.functions_positions import (simple_cubic_8, randomise_spheres,
                                         randomise_dumbbells)
@@ -192,6 +195,7 @@ posdata, setup_description = pos_setup(setup_number)
 
 # Initialise variables
 checkpoint_filename = ''
+checkpoint_data = {}
 checkpoint_start_from_frame = 0
 
 # NOTE: comment this section to disable Checkpointing
@@ -213,8 +217,11 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
         ignored_posdata, setup_description = pos_setup(checkpoint_setup_number)
         try:
             with np.load(filename) as data1:
-                positions_centres = data1['centres']
-                positions_deltax = data1['deltax']
+                data = {key: data1[key] for key in
+                        ('Fa', 'Fb', 'DFb', 'Sa', 'centres', 'deltax',
+                         'force_on_wall_due_to_dumbbells', 'sphere_rotations')}
+            positions_centres = data['centres']
+            positions_deltax = data['deltax']
             num_particles = positions_centres.shape[1]
             num_dumbbells = positions_deltax.shape[1]
             num_spheres = num_particles - num_dumbbells
@@ -224,13 +231,30 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             dumbbell_deltax = positions_deltax[-1, :, :]
             sphere_sizes = ignored_posdata[0]
             dumbbell_sizes = ignored_posdata[3]
-            sphere_rotations = add_sphere_rotations_to_positions(
-                sphere_positions, sphere_sizes, np.array([[1,0,0],[0,0,1]]))
+            sphere_rotations = data['sphere_rotations'][-1]
+
+            # The last saved positions are those at the start of this frame.
+            n = save_positions_every_n_timesteps
+            first_saved_frame = -(-start_saving_after_first_n_timesteps//n)*n
+            start_from_frame = (first_saved_frame
+                                + (positions_centres.shape[0] - 1)*n)
+            # Forces may have been saved since then: they are recalculated.
+            if save_forces_every_n_timesteps > 0:
+                m = save_forces_every_n_timesteps
+                first_saved_frame = -(-start_saving_after_first_n_timesteps//m)*m
+                num_force_rows = len(range(first_saved_frame,
+                                           min(start_from_frame + 1,
+                                               num_frames), m))
+                for key in ('Fa', 'Fb', 'DFb', 'Sa',
+                            'force_on_wall_due_to_dumbbells'):
+                    data[key] = data[key][:num_force_rows]
+
             posdata = (sphere_sizes, sphere_positions, sphere_rotations,
                        dumbbell_sizes, dumbbell_positions, dumbbell_deltax)
 
             checkpoint_filename = filename
-            checkpoint_start_from_frame = positions_centres.shape[0]
+            checkpoint_data = data
+            checkpoint_start_from_frame = start_from_frame
 
             word_checkpoint = "\033[42m\033[01m CHECKPOINT FOUND \033[0m\033[49m "
             print(
-- 
2.43.0


From 68356a40da85a009d9c8a246f2c1e96069c9c461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:30 +0000
Subject: [PATCH 05/24] fix: skip unusable backups and continue from the newest
 usable one

Every matching backup was loaded in turn, so the oldest one won. A file in the
output folder with an unexpected name, a backup with an array missing, or one
of a different number of particles stopped the run with an exception.
---
 stokesian_dynamics/setups/positions.py | 34 +++++++++++++++++---------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index c50ec3c..df57e6b 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -202,14 +202,17 @@ checkpoint_start_from_frame = 0
 # Otherwise read in list of temporary files
 checkpoint_start_from_frame = 0
 for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
-    checkpoint_setup_number = int(filename.split("-")[1][1:])
-    checkpoint_input_number = int(filename.split("-")[2][1:])
-    checkpoint_num_frames = int(filename.split("-")[3][:-2])
-    if filename.split("-")[4][-1] == "e":
-        raw_timestep = filename.split("-")[4][1:] + "-" + filename.split("-")[5]
-    else:
-        raw_timestep = filename.split("-")[4][1:]
-    checkpoint_timestep = float(raw_timestep.replace("p", "."))
+    try:
+        checkpoint_setup_number = int(filename.split("-")[1][1:])
+        checkpoint_input_number = int(filename.split("-")[2][1:])
+        checkpoint_num_frames = int(filename.split("-")[3][:-2])
+        if filename.split("-")[4][-1] == "e":
+            raw_timestep = filename.split("-")[4][1:] + "-" + filename.split("-")[5]
+        else:
+            raw_timestep = filename.split("-")[4][1:]
+        checkpoint_timestep = float(raw_timestep.replace("p", "."))
+    except (IndexError, ValueError):
+        continue  # Not named like a backup file
     if (checkpoint_setup_number == setup_number
         and checkpoint_input_number == input_number
         and checkpoint_num_frames == num_frames
@@ -225,6 +228,13 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             num_particles = positions_centres.shape[1]
             num_dumbbells = positions_deltax.shape[1]
             num_spheres = num_particles - num_dumbbells
+            num_rows = positions_centres.shape[0]
+            if (num_rows == 0 or num_spheres != len(ignored_posdata[0])
+                    or num_dumbbells != len(ignored_posdata[3])
+                    or positions_deltax.shape[0] != num_rows
+                    or data['sphere_rotations'].shape[:2]
+                    != (num_rows, num_spheres)):
+                raise ValueError("The backup is of different particles.")
             sphere_positions = positions_centres[-1, 0:num_spheres, :]
             dumbbell_positions = positions_centres[
                 -1, num_spheres:num_particles, :]
@@ -236,8 +246,7 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
             # The last saved positions are those at the start of this frame.
             n = save_positions_every_n_timesteps
             first_saved_frame = -(-start_saving_after_first_n_timesteps//n)*n
-            start_from_frame = (first_saved_frame
-                                + (positions_centres.shape[0] - 1)*n)
+            start_from_frame = first_saved_frame + (num_rows - 1)*n
             # Forces may have been saved since then: they are recalculated.
             if save_forces_every_n_timesteps > 0:
                 m = save_forces_every_n_timesteps
@@ -247,6 +256,8 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
                                                num_frames), m))
                 for key in ('Fa', 'Fb', 'DFb', 'Sa',
                             'force_on_wall_due_to_dumbbells'):
+                    if len(data[key]) < num_force_rows:
+                        raise ValueError("The backup has forces missing.")
                     data[key] = data[key][:num_force_rows]
 
             posdata = (sphere_sizes, sphere_positions, sphere_rotations,
@@ -261,9 +272,10 @@ for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
                 f"{word_checkpoint}Continuing file '{checkpoint_filename}' "
                 + f"from frame {str(checkpoint_start_from_frame + 1)}/{num_frames}"
             )
+            break
         except Exception:
             print("Checkpoint possibly found but the file was corrupt "
                   + "(normally because power was lost midway through saving). "
-                  + "Starting from beginning.")
+                  + "Starting from beginning unless there is an older one.")
 
 # End checkpointing -----|
-- 
2.43.0


From bc0a5ffb8519c6bbc4e965a4fa9ba70e3ed47241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:04 +0000
Subject: [PATCH 06/24] fix: keep sphere orientations with their spheres in
 periodic boxes

With Euler and AB2 timestepping the orientation markers were placed before the
sphere was wrapped around the box, so they were left a box length away from
it. RK4 already wraps first.
---
 stokesian_dynamics/run_simulation.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/run_simulation.py b/stokesian_dynamics/run_simulation.py
index 543ce60..90f7db3 100755
--- a/stokesian_dynamics/run_simulation.py
+++ b/stokesian_dynamics/run_simulation.py
@@ -265,22 +265,24 @@ def generate_frame(frameno, grand_mobility_matrix, view_graphics=True,
                 if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_positions = euler_timestep(
                         sphere_positions, Ua_out_plus_infinities_k1, timestep)
+                else:
+                    new_sphere_positions = ab2_timestep(
+                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
+                if periodic:
+                    new_sphere_positions = wrap_around(
+                        new_sphere_positions, box_bottom_left, box_top_right,
+                        Ot_infinity_k1, Et_infinity_k1)
+                if timestepping_scheme == "euler" or frameno - checkpoint_start_from_frame == 0:
                     new_sphere_rotations = euler_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, timestep)
                 else:
-                    new_sphere_positions = ab2_timestep(
-                        sphere_positions, Ua_out_plus_infinities_k1, last_velocities[0], timestep)
                     new_sphere_rotations = ab2_timestep_rotation(
                         sphere_positions, sphere_rotations,
                         new_sphere_positions, new_sphere_rotations,
                         Oa_out_plus_infinities_k1, last_velocities[3],
                         timestep)
-                if periodic:
-                    new_sphere_positions = wrap_around(
-                        new_sphere_positions, box_bottom_left, box_top_right,
-                        Ot_infinity_k1, Et_infinity_k1)
 
             if (num_dumbbells > 0):
                 Ub_out_plus_infinities_k1, HalfDUb_out_plus_infinities_k1 = add_background_flow_dumbbells(
-- 
2.43.0


From 615ca35442a36b1482a506d077303e496aed47c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:04 +0000
Subject: [PATCH 07/24] fix: give up on an email server which does not answer

A stalled connection kept a finished run waiting for ever. The From header of
the email also started with a stray backslash.
---
 stokesian_dynamics/functions/email.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/functions/email.py b/stokesian_dynamics/functions/email.py
index 39da537..d291298 100644
--- a/stokesian_dynamics/functions/email.py
+++ b/stokesian_dynamics/functions/email.py
@@ -25,10 +25,10 @@ def send_email(subject, body):
     to_address = recipient if isinstance(recipient,list) else [recipient]
 
     # Prepare actual message
-    message = """\\From: %s\nTo: %s\nSubject: %s\n\n%s
+    message = """From: %s\nTo: %s\nSubject: %s\n\n%s
     """ % (from_address, ", ".join(to_address), subject, body)
     try:
-        server = smtplib.SMTP("smtp.gmail.com", 587)
+        server = smtplib.SMTP("smtp.gmail.com", 587, timeout=60)
         server.ehlo()
         server.starttls()
         server.login(gmail_user, gmail_pwd)
-- 
2.43.0


From adec3b20b458c0e1c3f726484cfaaa8ac49ff406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:04 +0000
Subject: [PATCH 08/24] fix: survive a remaining-time estimate beyond the
 calendar

If the system clock jumps during a frame, the estimated finish time can be
outside the range of dates Python supports, which stopped the run.
---
 stokesian_dynamics/functions/timestepping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/timestepping.py b/stokesian_dynamics/functions/timestepping.py
index 613320a..272ddc3 100755
--- a/stokesian_dynamics/functions/timestepping.py
+++ b/stokesian_dynamics/functions/timestepping.py
@@ -641,7 +641,10 @@ def format_time_left(timeleft, flags):
 def format_finish_time(timeleft, flags):
     """Return string containing formatted finish time of simulation."""
     now = datetime.datetime.now()
-    finishtime = now + datetime.timedelta(0, timeleft)
+    try:
+        finishtime = now + datetime.timedelta(0, timeleft)
+    except OverflowError:
+        return flags + "unknown"
     if finishtime.date() == now.date():
         return flags + finishtime.strftime("%H:%M")
     elif (finishtime.date() - now.date()).days < 7:
-- 
2.43.0


From 64f0d9b2ca465a1e2c2ca295ed4562e9de664da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:48:46 +0000
Subject: [PATCH 09/24] fix: draw force arrows with current Matplotlib

Arrow3D computed its projection in draw(), which Matplotlib no longer
supports in 3D axes.  With view_labels on, the first frame with a force
ended the run with an AttributeError.
---
 stokesian_dynamics/functions/graphics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/graphics.py b/stokesian_dynamics/functions/graphics.py
index 6a9cb06..8262ec0 100755
--- a/stokesian_dynamics/functions/graphics.py
+++ b/stokesian_dynamics/functions/graphics.py
@@ -15,11 +15,11 @@ class Arrow3D(FancyArrowPatch):
         FancyArrowPatch.__init__(self, (0, 0), (0, 0), *args, **kwargs)
         self._verts3d = xs, ys, zs
 
-    def draw(self, renderer):
+    def do_3d_projection(self, renderer=None):
         xs3d, ys3d, zs3d = self._verts3d
-        xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, renderer.M)
+        xs, ys, zs = proj3d.proj_transform(xs3d, ys3d, zs3d, self.axes.M)
         self.set_positions((xs[0], ys[0]), (xs[1], ys[1]))
-        FancyArrowPatch.draw(self, renderer)
+        return np.min(zs)
 
 
 def rotation_matrix(d):
-- 
2.43.0


From 55348eb70265749c7bc36bba1c2a6cd252d42991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:55 +0000
Subject: [PATCH 10/24] fix: allow a single randomly placed sphere

The report of the closest pair took the minimum of an empty array.
---
 stokesian_dynamics/setups/functions_positions.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 0269ebc..645840e 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -62,12 +62,13 @@ def randomise_spheres(random_box_bottom_left, random_box_top_right,
 
     random_sphere_positions = sphere_positions_out[
         current_sphere_positions.shape[0]:all_sphere_sizes.shape[0]]
-    distance_matrix = np.linalg.norm(
-        random_sphere_positions-random_sphere_positions[:, None], axis=2)
-    min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
-    two_closest_elements = np.where(distance_matrix == min_element_distance)
-    print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
-    print("Closest two spheres: " + str(two_closest_elements[0]))
+    if len(random_sphere_sizes) > 1:
+        distance_matrix = np.linalg.norm(
+            random_sphere_positions-random_sphere_positions[:, None], axis=2)
+        min_element_distance = np.min(distance_matrix[np.nonzero(distance_matrix)])
+        two_closest_elements = np.where(distance_matrix == min_element_distance)
+        print("Min added sphere s': " + str(min_element_distance/random_sphere_sizes[0]))
+        print("Closest two spheres: " + str(two_closest_elements[0]))
 
     box_dimensions = abs(np.asarray(random_box_top_right)
                          - np.asarray(random_box_bottom_left))
-- 
2.43.0


From 84073d3224bd7e6f5c79b034973d88689c2b8fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:59 +0000
Subject: [PATCH 11/24] fix: keep the height of randomly placed periodic
 dumbbells

Wrapping the centre modulo 1e6 in y moved dumbbells whose centre lies
below the box a million units upwards.
---
 stokesian_dynamics/setups/functions_positions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 645840e..0daa156 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -285,10 +285,12 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
         dumbbell_positions[i] = 0.5*(proposed_bead1_position+proposed_bead2_position)
         dumbbell_deltax[i] = (proposed_bead2_position-proposed_bead1_position)
 
-        # Move the dumbbell_positions (centre) to inside the periodic box
-        dumbbell_positions[i] = (np.mod(
-            dumbbell_positions[i]-random_box_bottom_left, [Dx, 1e6, Dz]
-        ) + random_box_bottom_left)
+        # Move the dumbbell_positions (centre) to inside the periodic box,
+        # which is periodic in x and z
+        for d, D in [(0, Dx), (2, Dz)]:
+            dumbbell_positions[i, d] = (np.mod(
+                dumbbell_positions[i, d]-random_box_bottom_left[d], D
+            ) + random_box_bottom_left[d])
 
     print(" succeeded.")
 
-- 
2.43.0


From 6212cc3f8c330289811d9eaa24236b5ad6d70376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:57:07 +0000
Subject: [PATCH 12/24] fix: remove debugging stop from random dumbbell
 placement

Beads closer than 0.2, which are fine if they are small, opened an
IPython shell or failed where IPython is not installed.
---
 stokesian_dynamics/setups/functions_positions.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index 0daa156..bfed5d0 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -265,19 +265,6 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
                 if bingo == 1:
                     break
 
-        q = 1000
-        qq = 1000
-        for m in [-1, 0, 1]:
-            for n in [-1, 0, 1]:
-                dxy = np.array([m*Dx, 0, n*Dz])
-                for p in bead_positions[:i]:
-                    q = min(q, np.linalg.norm(proposed_bead2_position - (p+dxy)))
-                    qq = min(qq, np.linalg.norm(proposed_bead1_position - (p+dxy)))
-        if min(q, qq) < 0.2:
-            print(min(q, qq))
-            from IPython import embed
-            embed()
-
         sys.stdout.write('|')
         sys.stdout.flush()
         bead_positions[2*i] = proposed_bead1_position
-- 
2.43.0


From ab3ad79a7744cc7a60081a0f51661a1f835ccfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:37 +0000
Subject: [PATCH 13/24] fix: forget rejected positions of a dumbbell's second
 bead

Once one proposed second bead overlapped something, the remaining
ninety-nine attempts were rejected whatever they were.
---
 stokesian_dynamics/setups/functions_positions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stokesian_dynamics/setups/functions_positions.py b/stokesian_dynamics/setups/functions_positions.py
index bfed5d0..bcfcc67 100644
--- a/stokesian_dynamics/setups/functions_positions.py
+++ b/stokesian_dynamics/setups/functions_positions.py
@@ -118,6 +118,7 @@ def randomise_dumbbells(random_box_bottom_left, random_box_top_right,
             if too_close == 0:
                 bingo = 0
                 for _ in range(100):
+                    too_close = 0
                     if random_theta:
                         theta = np.random.rand()*np.pi*2
                     if random_phi:
@@ -232,6 +233,7 @@ def randomise_dumbbells_periodic(random_box_bottom_left, random_box_top_right,
             if too_close == 0:
                 bingo = 0
                 for _ in range(100):
+                    too_close = 0
                     if random_theta:
                         theta = np.random.rand()*np.pi*2
                     if random_phi:
-- 
2.43.0


From 8f1b9b0043137a813dad243c94ca8d134e41ef6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:46 +0000
Subject: [PATCH 14/24] fix: combine tables of separations in any order

combine_scalars.py stopped with an AttributeError, because the sorted list of
separations has no shape. The list was sorted but the table was not, so with
overlapping or unsorted lists the scalars belonged to other separations.
---
 find_resistance_scalars/combine_scalars.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/find_resistance_scalars/combine_scalars.py b/find_resistance_scalars/combine_scalars.py
index 3dea844..96d5e52 100755
--- a/find_resistance_scalars/combine_scalars.py
+++ b/find_resistance_scalars/combine_scalars.py
@@ -27,8 +27,10 @@ values_of_s_dash_nearfield = np.loadtxt('values_of_s_dash_nearfield.txt',
                                         ndmin=1)
 values_of_s_dash_midfield = np.loadtxt('values_of_s_dash_midfield.txt',
                                        ndmin=1)
-values_of_s_dash = sorted(np.concatenate((values_of_s_dash_nearfield,
-                                          values_of_s_dash_midfield)))
+values_of_s_dash = np.concatenate((values_of_s_dash_nearfield,
+                                   values_of_s_dash_midfield))
+s_dash_order = np.argsort(values_of_s_dash, kind='stable')
+values_of_s_dash = values_of_s_dash[s_dash_order]
 np.savetxt('values_of_s_dash.txt', values_of_s_dash, fmt="% .8e")
 s_dash_range = values_of_s_dash
 s_dash_length = len(s_dash_range)
@@ -46,7 +48,8 @@ print(XYZ_mid_raw.shape)
 print(XYZ_near_raw.shape)
 
 
-XYZ_general_table = np.concatenate((XYZ_near_raw, XYZ_mid_raw), axis=2)
+XYZ_general_table = np.concatenate((XYZ_near_raw, XYZ_mid_raw),
+                                   axis=2)[:, :, s_dash_order, :]
 general_scalars_length = len(general_resistance_scalars_names)
 
 with open('scalars_general_resistance.npy', 'wb') as outputfile:
-- 
2.43.0


From c3ea8673105a15ce7e94fe4ef42dec4d878927b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:46 +0000
Subject: [PATCH 15/24] fix: write the subtracted scalars next to the other
 tables

The script reads its tables from the current folder but wrote its own into a
subfolder of it that does not exist.
---
 find_resistance_scalars/subtract_R2Binfinity_from_scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
index 3e69284..96bc435 100755
--- a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
@@ -103,7 +103,7 @@ for lam_index, lam in enumerate(lam_range_with_reciprocals):
         XYZd_raw[10, 1, s_dash_index, lam_index] = XYZ_raw[10, 1, s_dash_index, lam_index] - ZM1
 
 # computer readable
-with open('find_resistance_scalars/scalars_general_resistance_d.npy', 'wb+') as outputfile:
+with open('scalars_general_resistance_d.npy', 'wb') as outputfile:
     np.save(outputfile, XYZd_raw)
 
 # human readable
-- 
2.43.0


From 97f9fb9683b8c390cb8e172e5d3ce7cd3e49d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:46 +0000
Subject: [PATCH 16/24] fix: allow a single size ratio when subtracting
 R2Binfinity

The other scripts read a list of one size ratio, this one stopped with an
error.
---
 find_resistance_scalars/subtract_R2Binfinity_from_scalars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
index 96bc435..2b788da 100755
--- a/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
+++ b/find_resistance_scalars/subtract_R2Binfinity_from_scalars.py
@@ -23,7 +23,7 @@ with open('scalars_general_resistance.npy', 'rb') as inputfile:
 XYZd_raw = np.copy(XYZ_raw)
 
 s_dash_range = np.loadtxt('values_of_s_dash.txt')
-lam_range = np.loadtxt('values_of_lambda.txt')
+lam_range = np.loadtxt('values_of_lambda.txt', ndmin=1)
 lam_range_with_reciprocals = np.copy(lam_range)
 for lam in lam_range:
     if 1/lam not in lam_range_with_reciprocals:
-- 
2.43.0


From 81d57a152eabb9988408f190100d4dcdda7b07ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:22:46 +0000
Subject: [PATCH 17/24] fix: find the size ratio whose reciprocal is being
 tabulated

For some size ratios, such as 0.9 and 0.41, the reciprocal of the reciprocal
is not exactly the size ratio, and the script stopped after all the solver
runs, without writing a table.
---
 find_resistance_scalars/generate_scalars_midfield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/find_resistance_scalars/generate_scalars_midfield.py b/find_resistance_scalars/generate_scalars_midfield.py
index 2b8c66e..ec5e4f4 100755
--- a/find_resistance_scalars/generate_scalars_midfield.py
+++ b/find_resistance_scalars/generate_scalars_midfield.py
@@ -433,7 +433,7 @@ for lam_wr_index, lam in enumerate(lam_range_with_reciprocals):
                                           lam**3, lam**3, lam**3])
         lam_scales_m = np.tile(lam_scales_one_line_m, (s_dash_length, 1)).T
 
-        lam_index = np.argwhere(lam_range == (1 / lam))[0, 0]
+        lam_index = np.argmin(np.abs(lam_range - 1/lam))
         XYZ_general_table[:, 0, :, lam_wr_index] = (XYZ_table[
             (3, 7, 11, 15, 19, 23, 27, 31, 35, 39, 43), :, lam_index]
             * minus_in_B_and_G * lam_scales_r)
-- 
2.43.0


From 61a55d15c50d5b4af7adb3e49f89bd99c80695af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:52 +0000
Subject: [PATCH 18/24] fix: Call plot_all_dumbbells with the arguments it
 takes in the plotting scripts

make_video.py and plot_positions.py still passed a frame number that the
function no longer has, so both stopped with a TypeError for files with
dumbbells.
---
 stokesian_dynamics/plotting/make_video.py     | 4 ++--
 stokesian_dynamics/plotting/plot_positions.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 1c962a9..79a799d 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -276,8 +276,8 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
             sphere_trace_lines, FaX)
     if num_dumbbells > 0:
         (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-            ax, real_frameno, posdata, trace_paths,
-            dumbbell_trace_lines, FbX, DFbX, no_line=no_line)
+            ax, posdata, trace_paths, dumbbell_trace_lines, FbX, DFbX,
+            no_line=no_line)
 
     if view_labels:
         (force_lines, force_text) = plot_all_force_lines(ax, posdata, Fa_out)
diff --git a/stokesian_dynamics/plotting/plot_positions.py b/stokesian_dynamics/plotting/plot_positions.py
index e3ff14a..dc22526 100755
--- a/stokesian_dynamics/plotting/plot_positions.py
+++ b/stokesian_dynamics/plotting/plot_positions.py
@@ -102,7 +102,7 @@ if num_spheres > 0:
         sphere_trace_lines, Fa_out[frameno])
 if num_dumbbells > 0:
     (dumbbell_spheres, dumbbell_lines, dumbbell_trace_lines) = plot_all_dumbbells(
-        ax, frameno, posdata, trace_paths, dumbbell_trace_lines,
+        ax, posdata, trace_paths, dumbbell_trace_lines,
         Fb_out[frameno], DFb_out[frameno])
 if view_labels:
     torque_lines = plot_all_torque_lines(ax, posdata, Ta_out)
-- 
2.43.0


From 3b4504ebec3aa420e5159ad1b4b82064a47eadde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:02:52 +0000
Subject: [PATCH 19/24] fix: Read timesteps such as 1e-05 from the file name in
 make_video.py

The name was split at every hyphen, including the one in the exponent.
---
 stokesian_dynamics/plotting/make_video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index 79a799d..e2e99de 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -40,7 +40,7 @@ newest = max(glob.iglob(output_folder + '*.[Nn][Pp][Zz]'), key=os.path.getctime)
 filename = newest[len(output_folder):-len(".npz")]
 # Overwrite filename here if you want a specific file
 
-timestep = float(filename.split('-')[4][1:].replace('p', '.'))
+timestep = float(filename.split('-t', 1)[1].split('-M', 1)[0].replace('p', '.'))
 input_number = int(filename.split('-')[2][1:])
 setup_number = int(filename.split('-')[1][1:])
 
-- 
2.43.0


From 61a4f326044e5c7f91ab1df0496085a37b78f745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:03:21 +0000
Subject: [PATCH 20/24] fix: Ask for initialised force vectors in make_video.py

Without an input form the force vectors hold placeholders, which the
repulsion forces of input 4 cannot be added to, so videos of runs with
input 4 could not be made.
---
 stokesian_dynamics/plotting/make_video.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index e2e99de..d1ae08b 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -177,7 +177,7 @@ def generate_frame(frameno, viewbox_bottomleft_topright=np.array([]),
      centre_of_background_flow, Ot_infinity, Et_infinity,
      box_bottom_left, box_top_right, mu) = input_ftsuoe(
         input_number, posdata, real_frameno, timestep, [[], [], [], []],
-        skip_computation=True)
+        input_form='fte', skip_computation=True)
     if np.linalg.norm(box_top_right - box_bottom_left) > 0:  # Periodic
         Lx = box_top_right[0] - box_bottom_left[0]
         Ly = box_top_right[1] - box_bottom_left[1]
-- 
2.43.0


From 509b8f3ddb88da241ec539ac82818cdec0e7273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:38 +0000
Subject: [PATCH 21/24] fix: Do not compile shear_basis_vectors with Numba

Numba cannot type it for the integer defaults of Ot_infinity and
Et_infinity, so every run with a periodic domain stopped in its first
frame. functions/shared.py is imported before settings.py turns Numba
off, so this happened whatever the setting.
---
 stokesian_dynamics/functions/shared.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stokesian_dynamics/functions/shared.py b/stokesian_dynamics/functions/shared.py
index 4346ff3..fbf8d0f 100755
--- a/stokesian_dynamics/functions/shared.py
+++ b/stokesian_dynamics/functions/shared.py
@@ -425,7 +425,8 @@ def feed_particles_from_bottom(posdata, feed_every_n_timesteps, feed_from_file,
             new_dumbbell_sizes, new_dumbbell_positions, new_dumbbell_deltax)
 
 
-@njit(cache=True)
+# Cannot be compiled by njit if given the integer defaults for the background
+# flow
 def shear_basis_vectors(basis_canonical, box_dimensions,
                         Ot_infinity, Et_infinity):
     """Shear the basis vectors representing the periodic box."""
-- 
2.43.0


From bab67b1a9b945bddb0ee81df3ed9cd2820625fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:36 +0000
Subject: [PATCH 22/24] fix: Print the matrices at output levels 2 and 3

R2Bexact is a dense array, and Minfinity is not regenerated in every frame, so
every run with printout > 1 stopped with an exception.
---
 .../functions/generate_grand_resistance_matrix.py          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
index b7737d2..3a11ef1 100755
--- a/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
+++ b/stokesian_dynamics/functions/generate_grand_resistance_matrix.py
@@ -84,7 +84,7 @@ def generate_grand_resistance_matrix(
         R2Bexact_elapsed_time = time.time() - R2Bexact_start_time
         if printout > 1:
             print("R2Bexact")
-            print(np.array_str(R2Bexact.toarray(), max_line_width=100000))
+            print(np.array_str(R2Bexact, max_line_width=100000))
 
         grand_resistance_matrix = R2Bexact  # shallow copy for better naming
         grand_resistance_matrix += Minfinity_inverse  # in-place addition
@@ -99,8 +99,9 @@ def generate_grand_resistance_matrix(
         R2Bexact_elapsed_time = 0
 
     if (printout > 1):
-        print("M infinity")
-        print(np.array_str(Minfinity, max_line_width=100000))
+        if regenerate_Minfinity and not use_drag_Minfinity:
+            print("M infinity")
+            print(np.array_str(Minfinity, max_line_width=100000))
         print("\n\nGrand resistance matrix")
         print(np.array_str(grand_resistance_matrix, max_line_width=100000))
         save_matrix(grand_resistance_matrix, "Grand Resistance Matrix",
-- 
2.43.0


From 96e23b7a5571dd230b628fd31cc3b05bd53808f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:36 +0000
Subject: [PATCH 23/24] fix: Continue backups of runs with negative setup or
 input numbers

The file names of the two-sphere setups (-s-1-i-1-) could not be read, so their
backups were passed over and the run began again.
---
 stokesian_dynamics/setups/positions.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/stokesian_dynamics/setups/positions.py b/stokesian_dynamics/setups/positions.py
index df57e6b..bc7b1eb 100755
--- a/stokesian_dynamics/setups/positions.py
+++ b/stokesian_dynamics/setups/positions.py
@@ -12,6 +12,7 @@ import numpy as np
 from functions.shared import (add_sphere_rotations_to_positions, same_setup_as,
                               throw_error)
 import glob
+import re
 from settings import (setup_number, input_number, num_frames, timestep,
                       save_positions_every_n_timesteps,
                       save_forces_every_n_timesteps,
@@ -202,17 +203,14 @@ checkpoint_start_from_frame = 0
 # Otherwise read in list of temporary files
 checkpoint_start_from_frame = 0
 for filename in sorted(glob.glob("output/*_TEMP.npz"), reverse=True):
-    try:
-        checkpoint_setup_number = int(filename.split("-")[1][1:])
-        checkpoint_input_number = int(filename.split("-")[2][1:])
-        checkpoint_num_frames = int(filename.split("-")[3][:-2])
-        if filename.split("-")[4][-1] == "e":
-            raw_timestep = filename.split("-")[4][1:] + "-" + filename.split("-")[5]
-        else:
-            raw_timestep = filename.split("-")[4][1:]
-        checkpoint_timestep = float(raw_timestep.replace("p", "."))
-    except (IndexError, ValueError):
+    name = re.match(r"[^-]*-s(-?\d+)-i(-?\d+)-(\d+)fr"
+                    r"-t(\d+(?:p\d+)?(?:e-?\d+)?)-", filename)
+    if name is None:
         continue  # Not named like a backup file
+    checkpoint_setup_number = int(name.group(1))
+    checkpoint_input_number = int(name.group(2))
+    checkpoint_num_frames = int(name.group(3))
+    checkpoint_timestep = float(name.group(4).replace("p", "."))
     if (checkpoint_setup_number == setup_number
         and checkpoint_input_number == input_number
         and checkpoint_num_frames == num_frames
-- 
2.43.0


From f38b4f0137c49c1d20a7ce5084140b15094a2175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:31:36 +0000
Subject: [PATCH 24/24] fix: Make videos of runs with negative setup or input
 numbers

---
 stokesian_dynamics/plotting/make_video.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stokesian_dynamics/plotting/make_video.py b/stokesian_dynamics/plotting/make_video.py
index d1ae08b..fe7b91d 100755
--- a/stokesian_dynamics/plotting/make_video.py
+++ b/stokesian_dynamics/plotting/make_video.py
@@ -13,6 +13,7 @@ import matplotlib
 import numpy as np
 import matplotlib.pyplot as plt
 import os
+import re
 import time
 import sys
 from matplotlib import animation, rcParams
@@ -41,8 +42,8 @@ filename = newest[len(output_folder):-len(".npz")]
 # Overwrite filename here if you want a specific file
 
 timestep = float(filename.split('-t', 1)[1].split('-M', 1)[0].replace('p', '.'))
-input_number = int(filename.split('-')[2][1:])
-setup_number = int(filename.split('-')[1][1:])
+setup_number, input_number = [
+    int(n) for n in re.search(r'-s(-?\d+)-i(-?\d+)-', filename).groups()]
 
 # Find out info from input_number
 posdata, setup_description = pos_setup(setup_number)
-- 
2.43.0

