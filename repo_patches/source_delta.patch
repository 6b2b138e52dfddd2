From 6823f85379686acf4e2efae6e37957066187475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:02 +0000
Subject: [PATCH 01/37] fix: average orientation adds the closest of q and -q,
 not its negative

---
 defdap/quat.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index d3a8d00..421e9b0 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -746,19 +746,24 @@ class Quat(object):
 
         """
         av_ori = np.copy(quat_comps[0, :, 0])
-        curr_mis_oris = np.empty(quat_comps.shape[0])
+        curr_dots = np.empty(quat_comps.shape[0])
 
         for i in range(1, quat_comps.shape[2]):
             # calculate misorientation between current average and all
             # symmetrical equivalents. Dot product of each symm quat in
             # quatComps with refOri for point i
-            curr_mis_oris[:] = abs(np.einsum(
+            curr_dots[:] = np.einsum(
                 "ij,j->i", quat_comps[:, :, i], av_ori
-            ))
+            )
 
-            # find min misorientation with current average then add to it
-            max_idx = np.argmax(curr_mis_oris[:])
-            av_ori += quat_comps[max_idx, :, i]
+            # find min misorientation with current average then add to it.
+            # q and -q are the same orientation, add the one in the
+            # hemisphere of the current average
+            max_idx = np.argmax(abs(curr_dots))
+            if curr_dots[max_idx] < 0:
+                av_ori -= quat_comps[max_idx, :, i]
+            else:
+                av_ori += quat_comps[max_idx, :, i]
 
         # Convert components back to a quat and normalise
         av_ori = Quat(av_ori)
-- 
2.43.0


From 375b477d63156f74c032312fe072e3b0da28f105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 02/37] fix: select IPF poles on the edges of the fundamental
 sector robustly

The strict test on the azimuth missed poles on the edges and at the
centre of the sector (for instance a cube axis exactly along the sample
direction), which returned a direction outside of it.
---
 defdap/quat.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index 421e9b0..a78d223 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -1040,8 +1040,12 @@ class Quat(object):
             'ijk,ijk->jk', direction_crystal, direction_crystal
         ))
 
-        # move all vectors into north hemisphere
-        direction_crystal[:, direction_crystal[2, :, :] < 0] *= -1
+        # distance used to catch poles on the edges of the fundamental triangle
+        delta = max(1e-8, 10 * np.finfo(direction_crystal.dtype).eps)
+
+        # move all vectors into north hemisphere. Leave those on the equator,
+        # otherwise rounding moves only some of them
+        direction_crystal[:, direction_crystal[2, :, :] < -delta] *= -1
 
         # convert to spherical coordinates
         alpha, beta = Quat.polar_angles(
@@ -1050,29 +1054,29 @@ class Quat(object):
 
         # find the poles in the fundamental triangle
         if sym_group == "cubic":
-            beta_range = (np.pi / 2, 3/4 * np.pi, 3)
+            beta_range = (np.pi / 2, 3/4 * np.pi)
 
         elif sym_group == "hexagonal":
             if triangle is None:
                 triangle = defaults['ipf_triangle_convention']
 
             if triangle == 'up':
-                beta_range = (np.pi / 2, 2/3 * np.pi, 1)
+                beta_range = (np.pi / 2, 2/3 * np.pi)
             elif triangle == 'down':
-                beta_range = (1/3 * np.pi, np.pi / 2, 1)
+                beta_range = (1/3 * np.pi, np.pi / 2)
             else:
                 ValueError("`triangle` must be 'up' or 'down'")
         else:
             raise ValueError("sym_group must be cubic or hexagonal")
         
-        trial_poles = np.logical_and(beta >= beta_range[0], beta <= beta_range[1])
-        # expand search slightly to catch edge cases if needed
-        if np.any(np.sum(trial_poles, axis=0) < beta_range[2]):
-            delta_beta = 1e-8
-            trial_poles = np.logical_and(
-                beta >= beta_range[0] - delta_beta,
-                beta <= beta_range[1] + delta_beta
-            )
+        # expand search slightly to catch poles on the edges of the triangle.
+        # Distance is used rather than angle as beta is ill-defined for poles
+        # at the centre
+        sin_alpha = np.sin(alpha)
+        trial_poles = np.logical_and(
+            (beta_range[0] - beta) * sin_alpha <= delta,
+            (beta - beta_range[1]) * sin_alpha <= delta
+        )
 
         if sym_group == "cubic":
             # now of symmetric equivalents left we want the one with
-- 
2.43.0


From f56d42ee38f631e67cd66cf13dd8c18fade3e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 03/37] fix: look an item up in every derivative of a datastore

Only the first derivative was tried, items of the others could not be
accessed.
---
 defdap/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 4e4bf6e..5c600f4 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -265,8 +265,8 @@ class Datastore(object):
         for derivative in self._derivatives:
             if key in self.lookup_derivative_keys(derivative):
                 break
-            else:
-                raise KeyError(f'Data with name `{key}` does not exist.')
+        else:
+            raise KeyError(f'Data with name `{key}` does not exist.')
         source = derivative['source']
 
         ## TODO: fix derived metadata
-- 
2.43.0


From 2cc91212115ce8086ea174dd94433754713af5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:53 +0000
Subject: [PATCH 04/37] fix: image of an empty boundary set is empty

Indexing with an empty tuple set every pixel of the image.
---
 defdap/ebsd.py  | 3 ++-
 defdap/hrdic.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 56ee7ee..adfe708 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1604,7 +1604,8 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.ebsd_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        if len(points) > 0:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index edf939c..fb1c036 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -897,7 +897,8 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.dic_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        if len(points) > 0:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
-- 
2.43.0


From 64edf9beac2d585d42b5bb60215870bff205c13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:01 +0000
Subject: [PATCH 05/37] fix: keep the x and y orientation gradients of the Nye
 tensor separate

Both names referred to the same array so the y gradient overwrote the x one.
---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index adfe708..0fa6ba4 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -510,7 +510,7 @@ class Map(base.Map):
 
         # calculate relative elastic distortion tensors at each point in the two directions
         betaderx = np.zeros((3, 3) + self.shape)
-        betadery = betaderx
+        betadery = np.zeros((3, 3) + self.shape)
         for i in range(self.x_dim - 1):
             for j in range(self.y_dim - 1):
                 q0x = Quat(quat_comps[0, 0, j, i], quat_comps[0, 1, j, i],
-- 
2.43.0


From d3cf9f8a207cb9104c5c27d1e0acd5de19244d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 06/37] fix: load map data from a dictionary

The dictionary was turned into a path, so maps could not be made from
the documented PythonDict data type.
---
 defdap/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index f4f2401..36008b7 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -83,7 +83,8 @@ class Map(ABC):
         self.grain_plot = None
         self.profile_plot = None
 
-        self.file_name = Path(file_name)
+        # data given as a dictionary is passed on to the loader directly
+        self.file_name = file_name if isinstance(file_name, dict) else Path(file_name)
         self.load_data(self.file_name, data_type=data_type)
 
         self.data.add_generator(
-- 
2.43.0


From 2f6e2b910a6d26471a2b8c6d0212b319666bfd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:59 +0000
Subject: [PATCH 07/37] fix: rotate orientations and all loaded data of an EBSD
 map together

Orientations that were already calculated kept their position in the map
and maps without band slope could not be rotated.
---
 defdap/ebsd.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 0fa6ba4..4c705a0 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -248,17 +248,21 @@ class Map(base.Map):
 
         """
 
-        self.data.euler_angle = self.data.euler_angle[:, ::-1, ::-1]
-        self.data.band_contrast = self.data.band_contrast[::-1, ::-1]
-        self.data.band_slope = self.data.band_slope[::-1, ::-1]
-        self.data.phase = self.data.phase[::-1, ::-1]
-        self.calc_quat_array()
+        # Get orientations before changing the Euler angles they may have to
+        # be generated from
+        orientation = self.data.orientation[::-1, ::-1]
+
+        # Flip all loaded data
+        generated = [key for keys in self.data._generators for key in keys]
+        for key in self.data._store:
+            if key not in generated and self.data.get_metadata(key, 'type') == 'map':
+                self.data[key] = self.data[key][..., ::-1, ::-1]
 
         # Rotation from old coord system to new
         transform_quat = Quat.from_axis_angle(np.array([0, 0, 1]), np.pi).conjugate
 
         # Perform vectorised multiplication
-        quats = Quat.multiply_many_quats(self.data.orientation.flatten(), transform_quat)
+        quats = Quat.multiply_many_quats(orientation.flatten(), transform_quat)
         self.data.orientation = np.array(quats).reshape(self.shape)
 
         yield 1.
-- 
2.43.0


From f4853e13041427a107d9b01cb70d9ab0cdf1abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 08/37] fix: read every field of EDAX .ang and Oxford .cpr
 files

The .ang column list did not match the record format, and fields listed
after an unknown one in a .cpr file were dropped.
---
 defdap/file_readers.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 74eb1bc..a3f3500 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -301,7 +301,7 @@ class EdaxAngLoader(EBSDDataLoader):
             # ('SE_signal', 'float32'),
             ('FF', 'float32'),
         ])
-        load_cols = (0, 1, 2, 5, 6, 7, 8, 9)
+        load_cols = (0, 1, 2, 5, 6, 7, 9)
 
         # now read the data from file
         data = np.loadtxt(
@@ -492,15 +492,15 @@ class OxfordBinaryLoader(EBSDDataLoader):
             12: ('IB6', 'float32')  # ?
         }
         field_lookup.update(edx_fields)
-        try:
-            for i in range(int(metadata['Fields']['Count'])):
-                field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+        for i in range(int(metadata['Fields']['Count'])):
+            field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+            try:
                 data_format.append(field_lookup[field_id])
-        except KeyError:
-            print(f'\nUnknown field in file with key {field_id}. '
-                  f'Assuming float32 data.')
-            unknown_field_count += 1
-            data_format.append((f'unknown_{unknown_field_count}', 'float32'))
+            except KeyError:
+                print(f'\nUnknown field in file with key {field_id}. '
+                      f'Assuming float32 data.')
+                unknown_field_count += 1
+                data_format.append((f'unknown_{unknown_field_count}', 'float32'))
 
         self.data_format = np.dtype(data_format)
 
-- 
2.43.0


From 4dcad9865ad8b35f937a5a3269d5719093ee18eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:19 +0000
Subject: [PATCH 09/37] fix: only flip OpenPIV data when y is descending

The test was always true, so data with ascending y was flipped too.
---
 defdap/file_readers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index a3f3500..0b9f556 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -789,8 +789,10 @@ class OpenPivTextLoader(DICDataLoader):
         self.checkMetadata()
         
         # if y descending, flip
-        if np.all(np.diff(data[:, col['y']].reshape(shape)[:,0])) > 0:
-            data = data.reshape(shape + (-1,))[::-1].transpose((2, 0, 1))
+        data = data.reshape(shape + (-1,))
+        if np.all(np.diff(data[:, 0, col['y']]) < 0):
+            data = data[::-1]
+        data = data.transpose((2, 0, 1))
 
         self.loaded_data.coordinate = data[[col['x'], col['y']]]
         self.loaded_data.displacement = data[[col['u'], col['v']]]
@@ -823,7 +825,7 @@ class OpenPivBinaryLoader(DICDataLoader):
         self.checkMetadata()
         
         # if y descending, flip
-        if np.all(np.diff(data['y'][:,0])) > 0:
+        if np.all(np.diff(data['y'][:,0]) < 0):
             self.loaded_data.coordinate = np.array([data['x'][::-1], data['y'][::-1]])
             self.loaded_data.displacement = np.array([data['u'][::-1], data['v'][::-1]])
         else:
-- 
2.43.0


From f596062cb7c6500cc5ed7bbfed475721dfb6f272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:31 +0000
Subject: [PATCH 10/37] fix: write the space group of each phase to .ctf files

It was written as 0, so cubic phases lost their slip systems on reload.
---
 defdap/file_writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/file_writers.py b/defdap/file_writers.py
index d7c85a6..cabcd23 100644
--- a/defdap/file_writers.py
+++ b/defdap/file_writers.py
@@ -107,7 +107,8 @@ class OxfordTextWriter(EBSDDataWriter):
                 angles = "{:.3f};{:.3f};{:.3f}".format(*angles)
 
                 ctf_file.write(f"{dims}\t{angles}\t{phase.name}"
-                               f"\t{phase.laue_group}\t0\t\t\t\n")
+                               f"\t{phase.laue_group}\t{phase.spaceGroup or 0}"
+                               f"\t\t\t\n")
 
             ctf_file.write("Phase\tX\tY\tBands\tError\tEuler1\tEuler2"
                            "\tEuler3\tMAD\tBC\tBS\n")
-- 
2.43.0


From 728b5db1168d53b034eba8dc0076395ab4ca999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:47 +0000
Subject: [PATCH 11/37] fix: flood fill stays inside maps that are one pixel
 wide or high

Only one of the two edges was checked along each axis, so the fill read
and wrote outside of the map.
---
 defdap/_accelerated.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/defdap/_accelerated.py b/defdap/_accelerated.py
index dd90896..775a448 100644
--- a/defdap/_accelerated.py
+++ b/defdap/_accelerated.py
@@ -58,12 +58,12 @@ def flood_fill(seed, index, points_remaining, grains, boundary_x, boundary_y,
         # get rid of any that go out of the map area
         if x <= 0:
             moves.pop(1)
-        elif x > grains.shape[1] - 2:
+        if x > grains.shape[1] - 2:
             moves.pop(0)
+        if y > grains.shape[0] - 2:
+            moves.pop(-2)
         if y <= 0:
             moves.pop(-1)
-        elif y > grains.shape[0] - 2:
-            moves.pop(-2)
 
         for (s, t) in moves:
             if grains[t, s] > 0:
@@ -137,12 +137,12 @@ def flood_fill_dic(seed, index, points_remaining, grains, added_coords):
         # get rid of any that go out of the map area
         if x <= 0:
             moves.pop(1)
-        elif x >= grains.shape[1] - 1:
+        if x >= grains.shape[1] - 1:
             moves.pop(0)
+        if y >= grains.shape[0] - 1:
+            moves.pop(-2)
         if y <= 0:
             moves.pop(-1)
-        elif y >= grains.shape[0] - 1:
-            moves.pop(-2)
 
         for (s, t) in moves:
             add_point = False
-- 
2.43.0


From 8653fe44a6cb72149bce74249b42eaf17917be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:21 +0000
Subject: [PATCH 12/37] fix: find grains in maps where there are none

Maps without any indexed point or with all regions below the minimum
size raised an error.
---
 defdap/ebsd.py  | 21 +++++++++++----------
 defdap/hrdic.py | 21 +++++++++++----------
 2 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 4c705a0..e024218 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -875,8 +875,8 @@ class Map(base.Map):
         # List of points where no grain has be set yet
         points_left = self.data.phase != 0
         total_points = points_left.sum()
-        found_point = 0
         next_point = points_left.tobytes().find(b'\x01')
+        found_point = next_point
 
         # Start counter for grains
         grain_index = 1
@@ -934,15 +934,16 @@ class Map(base.Map):
             grain.phase = self.phases[phase_id]
 
         ## TODO: this will get duplicated if find grains called again
-        self.data.add_derivative(
-            grain_list[0].data, self.grain_data_to_map, pass_ref=True,
-            in_props={
-                'type': 'list'
-            },
-            out_props={
-                'type': 'map'
-            }
-        )
+        if grain_list:
+            self.data.add_derivative(
+                grain_list[0].data, self.grain_data_to_map, pass_ref=True,
+                in_props={
+                    'type': 'list'
+                },
+                out_props={
+                    'type': 'map'
+                }
+            )
 
         self._grains = grain_list
         return grains
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index fb1c036..c73c37c 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -628,8 +628,8 @@ class Map(base.Map):
             points_left = grains == 0
             coords_buffer = np.zeros((points_left.size, 2), dtype=np.intp)
             total_points = points_left.sum()
-            found_point = 0
             next_point = points_left.tobytes().find(b'\x01')
+            found_point = next_point
 
             # Start counter for grains
             grain_index = 1
@@ -689,15 +689,16 @@ class Map(base.Map):
             raise ValueError(f"Unknown grain finding algorithm '{algorithm}'.")
 
         ## TODO: this will get duplicated if find grains called again
-        self.data.add_derivative(
-            grain_list[0].data, self.grain_data_to_map, pass_ref=True,
-            in_props={
-                'type': 'list'
-            },
-            out_props={
-                'type': 'map'
-            }
-        )
+        if grain_list:
+            self.data.add_derivative(
+                grain_list[0].data, self.grain_data_to_map, pass_ref=True,
+                in_props={
+                    'type': 'list'
+                },
+                out_props={
+                    'type': 'map'
+                }
+            )
 
         self._grains = grain_list
         return grains
-- 
2.43.0


From 7d202ee5eeb07c618ef8512a5af8884671107af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:47 +0000
Subject: [PATCH 13/37] fix: only link deformation map grains to EBSD grains

Points outside of all EBSD grains have negative labels, which were used
as an index and linked an unrelated grain.
---
 defdap/hrdic.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index c73c37c..5d5e37c 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -678,11 +678,12 @@ class Map(base.Map):
                 # Find grain by masking the native ebsd grain image with
                 # selected grain from the warped dic grain image. The modal
                 # value is the EBSD grain label.
-                mode_id, _ = mode(
-                    self.ebsd_map.data.grains[warped_dic_grains == i+1],
-                    keepdims=False
-                )
-                grain.ebsd_grain = self.ebsd_map[mode_id - 1]
+                ebsd_labels = self.ebsd_map.data.grains[warped_dic_grains == i+1]
+                # points that are not in a grain have negative or zero labels
+                ebsd_labels = ebsd_labels[ebsd_labels > 0]
+                if len(ebsd_labels) > 0:
+                    mode_id, _ = mode(ebsd_labels, keepdims=False)
+                    grain.ebsd_grain = self.ebsd_map[mode_id - 1]
                 grain.ebsd_map = self.ebsd_map
 
         else:
-- 
2.43.0


From 412573ca7d35c2b59dd860d789e19ba09d046fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:58 +0000
Subject: [PATCH 14/37] fix: Miller indices above 127 do not wrap around

They were stored as 8 bit integers.
---
 defdap/crystal_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/crystal_utils.py b/defdap/crystal_utils.py
index 18018b5..5267f3e 100644
--- a/defdap/crystal_utils.py
+++ b/defdap/crystal_utils.py
@@ -335,7 +335,7 @@ def reduce_idc(vec):
         The reduced indices.
 
     """
-    return tuple((np.array(vec) / np.gcd.reduce(vec)).astype(np.int8))
+    return tuple(np.array(vec) // np.gcd.reduce(vec))
 
 
 def safe_int_cast(vec, tol=1e-3):
@@ -366,7 +366,7 @@ def safe_int_cast(vec, tol=1e-3):
     if np.any(np.abs(vec - vec_rounded) > tol):
         raise ValueError('Rounding too large', np.abs(vec - vec_rounded))
 
-    return tuple(vec_rounded.astype(np.int8))
+    return tuple(vec_rounded.astype(int))
 
 
 def idc_to_string(idc, brackets=None, str_type='unicode'):
-- 
2.43.0


From 5feaddcbebf2543f98524c04f8e7c748b2a4eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:22 +0000
Subject: [PATCH 15/37] fix: equivalent directions of hexagonal crystals given
 as Miller indices

Miller-Bravais indices in thirds could not be reduced.
---
 defdap/crystal_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/crystal_utils.py b/defdap/crystal_utils.py
index 5267f3e..5915949 100644
--- a/defdap/crystal_utils.py
+++ b/defdap/crystal_utils.py
@@ -238,8 +238,9 @@ def equavlent_indicies(
             if dir_symm[2] < 0:
                 dir_symm *= -1
             if crystal_symm == 'hexagonal':
+                # multiply by 3 as Miller-Bravais indices can be in thirds
                 dir_symm = reduce_idc(convert_idc(
-                    'm', dir=safe_int_cast(np.matmul(q_matrix.T, dir_symm))
+                    'm', dir=safe_int_cast(3 * np.matmul(q_matrix.T, dir_symm))
                 ))
             dirs.append(safe_int_cast(dir_symm))
     
-- 
2.43.0


From 3729c6c684acd39a5e8407096af1ae39ce5ed663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 16/37] fix: angle of a vertical line does not depend on its
 direction

It was 0 or 180 degrees depending on the order of the end points.
---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 8a77a39..b27d3fd 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -147,7 +147,7 @@ class GrainInspector:
         # Get angle of lines
         line_angle = 90 - np.rad2deg(np.arctan2(self.grain_plot.p2[1] - self.grain_plot.p1[1],
                                                 self.grain_plot.p2[0] - self.grain_plot.p1[0]))
-        if line_angle > 180:
+        if line_angle >= 180:
             line_angle -= 180
         elif line_angle < 0:
             line_angle += 180
-- 
2.43.0


From 5f04374e475e144c85459a97b3a5af9bb081b91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 17/37] fix: group lines independently of their previous groups

After removing a line, lines with an outdated group were included in the
average angle of the group.
---
 defdap/inspector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index b27d3fd..1e09119 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -186,6 +186,10 @@ class GrainInspector:
         if grain.points_list == []:
             grain.groups_list = []
         else:
+            # Forget previous grouping, it must not contribute to averages
+            for line in grain.points_list:
+                line[2] = -1
+
             for i, line in enumerate(grain.points_list):
                 angle = line[1]
                 if i == 0:
-- 
2.43.0


From 2d6a0517ef491846566c33367fcd730fa9b38f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 18/37] fix: saved slip lines can be loaded again

Numpy scalars were written in a form that cannot be parsed and loading
added to the lines of a grain instead of restoring them.
---
 defdap/inspector.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 1e09119..946b709 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -199,7 +199,7 @@ class GrainInspector:
                 else:  # If there is more that one angle
                     if np.any(np.abs(np.array([x[1] for x in grain.groups_list]) - angle) < 10):
                         # If within +- 5 degrees of existing group, set that as the group
-                        group = np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle))
+                        group = int(np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle)))
                         grain.points_list[i][2] = group
                         new_average = float('{0:.2f}'.format(
                             np.average([x[1] for x in grain.points_list if x[2] == group])))
@@ -434,7 +434,7 @@ class GrainInspector:
         lin_reg_result = linregress(x=np.array(v_list).flatten(), y=np.array(u_list).flatten())
 
         # Save measured RDR
-        grain.groups_list[group][4] = lin_reg_result.slope
+        grain.groups_list[group][4] = float(lin_reg_result.slope)
 
         if show_plot:
             self.plot_rdr(grain, group, u_list, v_list, x_list, y_list, lin_reg_result)
@@ -662,12 +662,14 @@ class GrainInspector:
         for start_index, grain_id, num_lines, num_groups in index_list:
             start_index_lines = start_index + 2
             grain_points = lines[start_index_lines:start_index_lines + num_lines]
-            for point in grain_points:
-                self.selected_dic_map[grain_id].points_list.append(ast.literal_eval(point.split('\\')[0]))
+            self.selected_dic_map[grain_id].points_list = [
+                ast.literal_eval(point.split('\\')[0]) for point in grain_points
+            ]
 
             start_index_groups = start_index + 3 + num_lines
             grain_groups = lines[start_index_groups:start_index_groups + num_groups]
-            for group in grain_groups:
-                self.selected_dic_map[grain_id].groups_list.append(ast.literal_eval(group.split('\\')[0]))
+            self.selected_dic_map[grain_id].groups_list = [
+                ast.literal_eval(group.split('\\')[0]) for group in grain_groups
+            ]
 
         self.redraw()
-- 
2.43.0


From a7db52aa3932444a7b47726ef8d7e2645bdf757d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:03 +0000
Subject: [PATCH 19/37] fix: report the orientation of each grain in slip trace
 analysis

The orientation of the selected grain was printed for all grains.
---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 946b709..e1fe515 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -368,7 +368,7 @@ class GrainInspector:
             if grain.points_list != []:
                 for group in grain.groups_list:
                     maxSF = np.max([item for sublist in grain.ebsd_grain.average_schmid_factors for item in sublist])
-                    eulers = self.selected_ebsd_grain.ref_ori.euler_angles() * 180 / np.pi
+                    eulers = grain.ebsd_grain.ref_ori.euler_angles() * 180 / np.pi
                     text = '{0}\t{1:.1f}\t{2:.1f}\t{3:.1f}\t{4:.3f}\t'.format(
                         idx, eulers[0], eulers[1], eulers[2], maxSF)
                     text += '{0}\t{1:.1f}\t{2}\t{3}\t{4:.2f}'.format(
-- 
2.43.0


From 3f7308e6ee032b4889915b53d7ea7dea99747755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:30 +0000
Subject: [PATCH 20/37] fix: misorientation axis is finite at zero
 misorientation

---
 defdap/ebsd.py | 14 ++++++++++++--
 defdap/quat.py |  7 +++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index e024218..e5f3e9f 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1281,7 +1281,12 @@ class Grain(base.Grain):
             dq[:, dq[0] < 0] = -dq[:, dq[0] < 0]
 
             # numpy broadcasting taking care of different array sizes
-            mis_ori_axis[:, :] = (2 * dq[1:4, :] * np.arccos(dq[0, :])) / np.sqrt(1 - np.power(dq[0, :], 2))
+            dq[0, :] = np.minimum(dq[0, :], 1)
+            sin_half = np.sqrt(1 - np.power(dq[0, :], 2))
+            # angle / sin tends to 1 at zero misorientation
+            scale = np.ones(len(sin_half))
+            np.divide(np.arccos(dq[0, :]), sin_half, out=scale, where=sin_half > 0)
+            mis_ori_axis[:, :] = 2 * dq[1:4, :] * scale
 
             # hack it back into a list. Need to change self.*List to be arrays, it was a bad decision to
             # make them lists in the beginning
@@ -1311,7 +1316,12 @@ class Grain(base.Grain):
         dq[3] = (ref_ori_inv[3]*quat_comps[0] + ref_ori_inv[0]*quat_comps[3] +
                  ref_ori_inv[2]*quat_comps[1] - ref_ori_inv[1]*quat_comps[2])
         dq[:, dq[0] < 0] *= -1
-        misori_axis = (2 * dq[1:4] * np.arccos(dq[0])) / np.sqrt(1 - dq[0]**2)
+        dq[0] = np.minimum(dq[0], 1)
+        sin_half = np.sqrt(1 - dq[0]**2)
+        # angle / sin tends to 1 at zero misorientation
+        scale = np.ones(len(sin_half))
+        np.divide(np.arccos(dq[0]), sin_half, out=scale, where=sin_half > 0)
+        misori_axis = 2 * dq[1:4] * scale
 
         return misori, misori_axis
     
diff --git a/defdap/quat.py b/defdap/quat.py
index a78d223..7ce1e65 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -429,8 +429,11 @@ class Quat(object):
         if isinstance(right, type(self)):
             Dq = right * self.conjugate
             Dq = Dq.quat_coef
-            mis_ori_axis = 2 * Dq[1:4] * np.arccos(Dq[0]) / np.sqrt(1 - Dq[0]**2)
-            return mis_ori_axis
+            cos_half = min(Dq[0], 1.)
+            sin_half = np.sqrt(1 - cos_half**2)
+            # angle / sin tends to 1 at zero misorientation
+            scale = np.arccos(cos_half) / sin_half if sin_half > 0 else 1.
+            return 2 * Dq[1:4] * scale
         raise TypeError("Input must be a quaternion.")
 
     def plot_ipf(
-- 
2.43.0


From 8094ccce3f48f171a62f1d21e5ac70cecb5c80b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:49 +0000
Subject: [PATCH 21/37] fix: linking another EBSD map replaces the derived
 boundaries

---
 defdap/hrdic.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 5d5e37c..6701008 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -395,14 +395,15 @@ class Map(base.Map):
         self.experiment.link_frames(self.frame, ebsd_map.frame, kwargs)
         self.data.add_derivative(
             self.ebsd_map.data,
-            lambda boundaries: BoundarySet.from_ebsd_boundaries(
-                self, boundaries
-            ),
+            self._warp_boundaries,
             in_props={
                 'type': 'boundaries'
             }
         )
 
+    def _warp_boundaries(self, boundaries):
+        return BoundarySet.from_ebsd_boundaries(self, boundaries)
+
     def check_ebsd_linked(self):
         """Check if an EBSD map has been linked.
 
-- 
2.43.0


From 0b645614070b343589784373c631773586bec3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:50 +0000
Subject: [PATCH 22/37] fix: datastores do not share or change the items they
 are given

---
 defdap/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 5c600f4..77c3647 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -339,7 +339,7 @@ class Datastore(object):
             if metadatas is None:
                 metadata = {}
             else:
-                metadata = metadatas[i]
+                metadata = dict(metadatas[i])
             metadata.update(kwargs)
             self.add(key, None, **metadata)
         self._generators[keys] = func
@@ -417,8 +417,7 @@ class Datastore(object):
 
         """
         if priority == 'self':
-            other._store.update(self._store)
-            self._store = other._store
+            self._store = {**other._store, **self._store}
         else:
             self._store.update(other._store)
 
-- 
2.43.0


From 85684631c84cca22b3f69781a03a82ce80f988f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 23/37] fix: direct lattice of any unit cell in the hkl
 convention

---
 defdap/crystal_utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/defdap/crystal_utils.py b/defdap/crystal_utils.py
index 5915949..1b52d96 100644
--- a/defdap/crystal_utils.py
+++ b/defdap/crystal_utils.py
@@ -61,16 +61,16 @@ def create_l_matrix(a, b, c, alpha, beta, gamma, convention=None):
         convention = defaults['crystal_ortho_conv']
 
     if convention.lower() in ['hkl', 'oi']:
-        # Swap 00 with 11 and 01 with 10 due to how OI orthonormalises
-        # From Brad Wynne
-        t1 = l_matrix[0, 0]
-        t2 = l_matrix[1, 0]
+        # OI orthonormalises with y along the second vector rather than x
+        # along the first
+        l_matrix[0, 0] = a * sin_gamma
+        l_matrix[1, 0] = a * cos_gamma
 
-        l_matrix[0, 0] = l_matrix[1, 1]
-        l_matrix[1, 0] = l_matrix[0, 1]
+        l_matrix[0, 1] = 0
+        l_matrix[1, 1] = b
 
-        l_matrix[1, 1] = t1
-        l_matrix[0, 1] = t2
+        l_matrix[0, 2] = c * (cos_beta - cos_alpha * cos_gamma) / sin_gamma
+        l_matrix[1, 2] = c * cos_alpha
 
     elif convention.lower() != 'tsl':
         raise ValueError(
-- 
2.43.0


From 8921d02a18d22a401fc73b3537df4cfeca7216ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:25 +0000
Subject: [PATCH 24/37] fix: load slip system files with one slip system

---
 defdap/crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/crystal.py b/defdap/crystal.py
index b38c418..4e6662a 100755
--- a/defdap/crystal.py
+++ b/defdap/crystal.py
@@ -421,7 +421,7 @@ class SlipSystem(object):
             vect_size = 3
 
         ss_data = np.loadtxt(filepath, delimiter='\t', skiprows=2,
-                            dtype=np.int8)
+                            dtype=np.int8, ndmin=2)
         if ss_data.shape[1] != 2 * vect_size:
             raise IOError("Slip system file not valid")
 
-- 
2.43.0


From 9e39eade81a977cefe1585766aab3a0e81ae0ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:22 +0000
Subject: [PATCH 25/37] fix: {123}<111> slip systems of bcc crystals have the
 direction in the plane

---
 defdap/slip_systems/cubic_bcc.txt | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/defdap/slip_systems/cubic_bcc.txt b/defdap/slip_systems/cubic_bcc.txt
index a852e6d..c48512d 100644
--- a/defdap/slip_systems/cubic_bcc.txt
+++ b/defdap/slip_systems/cubic_bcc.txt
@@ -26,25 +26,25 @@ green,green,green,green,red,red,red,red,blue,blue,blue,blue
 1	-1	2	-1	1	1
 1	2	3	1	1	-1
 2	1	3	1	1	-1
-3	2	1	1	1	-1
-2	3	1	1	1	-1
+3	-2	1	1	1	-1
+-2	3	1	1	1	-1
 -1	3	2	1	1	-1
 3	-1	2	1	1	-1
 1	3	2	1	-1	1
 2	3	1	1	-1	1
-3	1	2	1	-1	1
-2	1	3	1	-1	1
+3	1	-2	1	-1	1
+-2	1	3	1	-1	1
 -1	2	3	1	-1	1
 3	2	-1	1	-1	1
 3	1	2	-1	1	1
 3	2	1	-1	1	1
-1 	2 	3	-1	1	1
-1	3	2	-1	1	1
+1	-2	3	-1	1	1
+1	3	-2	-1	1	1
 2	-1	3	-1	1	1
 2	3	-1	-1	1	1
-1	2	3	1	1	1
-1	3	2	1	1	1
-3	1	2	1	1	1
-2	1	3	1	1 	1
-2	3	1 	1	1	1
-3	1	2	1	1	1
\ No newline at end of file
+1	2	-3	1	1	1
+1	-3	2	1	1	1
+-3	1	2	1	1	1
+2	1	-3	1	1	1
+2	-3	1	1	1	1
+-3	2	1	1	1	1
\ No newline at end of file
-- 
2.43.0


From 8b64360ddda4aaab07f67c43d7100172432ec81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 26/37] fix: inclination of a slip plane parallel to the
 surface is a number

---
 defdap/ebsd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index e5f3e9f..67dd1a0 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1565,7 +1565,8 @@ class Grain(base.Grain):
             intersection_crystal = np.cross(screen_plane_norm_crystal, slip_plane_norm)
 
             # Calculate angle between slip plane and screen plane
-            inclination = np.arccos(np.dot(screen_plane_norm_crystal, slip_plane_norm))
+            cos_inclination = np.dot(screen_plane_norm_crystal, slip_plane_norm)
+            inclination = np.arccos(np.clip(cos_inclination, -1, 1))
             if inclination > np.pi / 2:
                 inclination = np.pi - inclination
             # print("{} inclination: {:.1f}".format(planeLabel, inclination * 180 / np.pi))
-- 
2.43.0


From 29b14d6692f1bcbfc49a9ba75663dcf0e26aa353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 27/37] fix: datastore lookup is finished when it ends at a
 visited datastore

---
 defdap/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 77c3647..a078a5d 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -247,9 +247,9 @@ class Datastore(object):
 
         source = derivative['source']
         matched_keys = []
-        if source._group_id in Datastore._been_to:
-            return matched_keys
-        for key in source:
+        # nothing to look up in a datastore that has already been to
+        keys = () if source._group_id in Datastore._been_to else source
+        for key in keys:
             for meta_key in derivative['in_props']:
                 if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
                     break
-- 
2.43.0


From 9db74be0409c58003332a5bb9183779d9193b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 28/37] fix: items of datastores derived over several steps are
 found

---
 defdap/utils.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index a078a5d..6e003b2 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -239,25 +239,23 @@ class Datastore(object):
         return keys
 
     def lookup_derivative_keys(self, derivative):
-        root_call = False
-        if Datastore._been_to is None:
-            root_call = True
-            Datastore._been_to = set()
-        Datastore._been_to.add(self._group_id)
+        # datastores on the way to this one, to not go around in circles
+        been_to = Datastore._been_to
+        Datastore._been_to = (been_to or set()) | {self._group_id}
 
         source = derivative['source']
         matched_keys = []
         # nothing to look up in a datastore that has already been to
         keys = () if source._group_id in Datastore._been_to else source
-        for key in keys:
-            for meta_key in derivative['in_props']:
-                if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
-                    break
-            else:
-                matched_keys.append(key)
-
-        if root_call:
-            Datastore._been_to = None
+        try:
+            for key in keys:
+                for meta_key in derivative['in_props']:
+                    if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
+                        break
+                else:
+                    matched_keys.append(key)
+        finally:
+            Datastore._been_to = been_to
 
         return matched_keys
 
-- 
2.43.0


From 5c92836ccdb3c6f0b0da4b202c488a71a2d70fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 29/37] fix: finding grains again replaces the grains found
 before

---
 defdap/ebsd.py  | 2 ++
 defdap/hrdic.py | 2 ++
 defdap/utils.py | 8 ++++++++
 3 files changed, 12 insertions(+)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 67dd1a0..f259691 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -868,6 +868,8 @@ class Map(base.Map):
         # TODO: Look at grain map compared to boundary map
         grains = np.zeros(self.shape, dtype=int)
         grain_list = []
+        # any grains found before are replaced
+        self.data.remove_derivative(self.grain_data_to_map)
 
         boundary_im_x = self.data.grain_boundaries.image_x
         boundary_im_y = self.data.grain_boundaries.image_y
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 6701008..1b87f4d 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -585,6 +585,8 @@ class Map(base.Map):
         algorithm = algorithm.lower()
 
         grain_list = []
+        # any grains found before are replaced
+        self.data.remove_derivative(self.grain_data_to_map)
         group_id = Datastore.generate_id()
 
         if algorithm == 'warp':
diff --git a/defdap/utils.py b/defdap/utils.py
index 6e003b2..9ebee94 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -364,6 +364,14 @@ class Datastore(object):
         else:
             self._derivatives.append(new_derivative)
 
+    def remove_derivative(self, derive_func):
+        """Stop deriving data with a function. Nothing happens if no data
+        is derived with the function."""
+        self._derivatives = [
+            derivative for derivative in self._derivatives
+            if derivative['func'] != derive_func
+        ]
+
     def generate(self, key, return_val=False, **kwargs):
         """Generate data from the associated data generation method and
         store if metadata `save` is not set to False.
-- 
2.43.0


From ed37752928cc18226f5e1f55266cc171e56fd7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:04 +0000
Subject: [PATCH 30/37] fix: calculate data of an EBSD map again after rotating
 it

Kernel average misorientation, boundaries and grains calculated before
rotating the map kept describing the map before the rotation.
---
 defdap/ebsd.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index f259691..e012368 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -252,10 +252,13 @@ class Map(base.Map):
         # be generated from
         orientation = self.data.orientation[::-1, ::-1]
 
-        # Flip all loaded data
+        # Flip all loaded data, anything calculated before has to be
+        # calculated again
         generated = [key for keys in self.data._generators for key in keys]
         for key in self.data._store:
-            if key not in generated and self.data.get_metadata(key, 'type') == 'map':
+            if key in generated:
+                self.data[key] = None
+            elif self.data.get_metadata(key, 'type') == 'map':
                 self.data[key] = self.data[key][..., ::-1, ::-1]
 
         # Rotation from old coord system to new
-- 
2.43.0


From 997fe4958c04ac55ae8bbaa5cad785df42db2169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:54 +0000
Subject: [PATCH 31/37] fix: grain outline with the default background raised
 because nan does not fit an integer image

---
 defdap/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index 36008b7..d233e19 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -874,7 +874,7 @@ class Grain(ABC):
         x0, y0, xmax, ymax = self.extreme_coords
 
         # initialise array with nans so area not in grain displays white
-        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg, dtype=int)
+        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg)
 
         for coord in self.data.point:
             outline[coord[1] - y0, coord[0] - x0] = fg
-- 
2.43.0


From e3a98b0208b954dfbbbccd6fb0421a2f3ffe3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:31 +0000
Subject: [PATCH 32/37] fix: the neighbour network of a deformation map read a
 boundary image that does not exist and took unlabelled points for the last
 grain

---
 defdap/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index d233e19..c637c48 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -277,12 +277,11 @@ class Map(ABC):
         """Construct a list of neighbours
 
         """
-        ## TODO: fix HRDIC NN
         # create network
         nn = nx.Graph()
         nn.add_nodes_from(self.grains)
 
-        y_locs, x_locs = np.nonzero(self.boundaries)
+        y_locs, x_locs = np.nonzero(self.data.grain_boundaries.image)
         total_points = len(x_locs)
 
         for i_point, (x, y) in enumerate(zip(x_locs, y_locs)):
@@ -306,8 +305,9 @@ class Map(ABC):
                 self.data.grains[y, x - 1] - 1
             }
             # neighbours = set(neighbours)
-            # remove boundary points (-2) and points in small
-            # grains (-3) (Normally -1 and -2)
+            # remove points not in a grain (-1), boundary points (-2) and
+            # points in small grains (-3) (Normally 0, -1 and -2)
+            neighbours.discard(-1)
             neighbours.discard(-2)
             neighbours.discard(-3)
 
-- 
2.43.0


From 01ca38359f6e76a476346a58763455ebb362530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:37 +0000
Subject: [PATCH 33/37] fix: Map.proxigram returns the proximity map

The property passed an argument that calc_proxigram does not have and
returned an attribute that is never set.
---
 defdap/base.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index c637c48..30d3285 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -390,9 +390,7 @@ class Map(ABC):
             Distance from a grain boundary at each point in map.
 
         """
-        self.calc_proxigram(force_calc=False)
-
-        return self.proxigram_arr
+        return self.data.proxigram
 
     @report_progress("calculating proxigram")
     def calc_proxigram(self, num_trials=500):
-- 
2.43.0


From 264d3060c3efd20b3de1084abc223f73d1e79789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 34/37] fix: warp_points keeps boundary points of frames
 starting outside the border

A frame that starts before the 5% border gave negative slice starts and an
empty (or shifted) set of points. The border and the output shape mixed
(row, column) and (x, y) order, which lost points of elongated maps.
---
 defdap/experiment.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 5642aa0..56995e0 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -100,8 +100,9 @@ class Experiment(object):
             # 5% border to show the entire image after rotation/shearing
             input_shape = np.array(map_data.shape)
             transform = tf.AffineTransform(matrix=np.copy(transform.params))
-            transform.params[0:2, 2] = -0.05 * input_shape
-            output_shape = input_shape * 1.4 / transform.scale
+            # shape is in (y, x) order, the transform in (x, y) order
+            transform.params[0:2, 2] = -0.05 * input_shape[::-1]
+            output_shape = input_shape * 1.4 / transform.scale[::-1]
             kwargs['output_shape'] = output_shape.astype(int)
 
         return tf.warp(map_data, transform, **kwargs)
@@ -144,9 +145,15 @@ class Experiment(object):
             # the crop is defined in EBSD coords so need to transform it
             crop = np.matmul(
                 np.linalg.inv(transform.params[0:2, 0:2]),
-                transform.params[0:2, 2] + 0.05*input_shape
+                transform.params[0:2, 2] + 0.05*input_shape[::-1]
             )
             crop = crop.round().astype(int)
+            # the frame can start before the border
+            before = np.maximum(-crop, 0)
+            points_img = np.pad(
+                points_img, ((before[1], 0), (before[0], 0))
+            )
+            crop += before
             points_img = points_img[crop[1]:crop[1] + kwargs['output_shape'][0],
                                     crop[0]:crop[0] + kwargs['output_shape'][1]]
 
-- 
2.43.0


From e908b3fb09d70af89f05c35eedee4bf2b22b5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:00 +0000
Subject: [PATCH 35/37] fix: accept the documented transform type
 piecewiseAffine

link_ebsd_map stores the lower case name, which was not in the lookup.
---
 defdap/experiment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 56995e0..4f08ec1 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -44,6 +44,7 @@ class Experiment(object):
     def get_frame_transform(self, frame_1, frame_2):
         transform_lookup = {
             'piecewise_affine': tf.PiecewiseAffineTransform,
+            'piecewiseaffine': tf.PiecewiseAffineTransform,
             'projective': tf.ProjectiveTransform,
             'polynomial': tf.PolynomialTransform,
             'affine': tf.AffineTransform,
-- 
2.43.0


From 01fed42bdf958469da73986e516e0f963b85cc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 36/37] fix: draw the measured group angles in the grain
 inspector

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index e1fe515..04219df 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -335,7 +335,7 @@ class GrainInspector:
         # Draw slip bands
         bands = [elem[1] for elem in self.selected_dic_grain.groups_list]
         if self.selected_dic_grain.groups_list != None:
-            slipPlot.add_slip_bands(top_only=True, angles=list(np.deg2rad(bands)))
+            slipPlot.add_traces(np.deg2rad(bands), ['black'], top_only=True)
 
     def run_rdr_group(self,
                       event: int,
-- 
2.43.0


From 123602db2cc9544ba210d1111f3087fe53d8a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:42 +0000
Subject: [PATCH 37/37] fix: wrap the angle of a line after the correction, so
 that it matches slip traces

---
 defdap/inspector.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 04219df..7fe4260 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -147,12 +147,9 @@ class GrainInspector:
         # Get angle of lines
         line_angle = 90 - np.rad2deg(np.arctan2(self.grain_plot.p2[1] - self.grain_plot.p1[1],
                                                 self.grain_plot.p2[0] - self.grain_plot.p1[0]))
-        if line_angle >= 180:
-            line_angle -= 180
-        elif line_angle < 0:
-            line_angle += 180
 
-        line_angle -= self.correction_angle
+        # Correct angle and wrap to half turn, as angles of slip traces
+        line_angle = (line_angle - self.correction_angle) % 180
 
         # Two decimal places
         points = [float("{:.2f}".format(point)) for point in self.grain_plot.p1 + self.grain_plot.p2]
-- 
2.43.0

