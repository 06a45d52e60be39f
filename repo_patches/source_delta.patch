From c51e676776651c82c7a130ccd461dafabc9ca660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 01/79] fix: keep the datastore lookup guard local to each
 lookup

The guard against recursion between derived datastores was a class
attribute, so lookups in different threads saw each other's visited
stores and an exception raised during a lookup left it set, after which
derived data could no longer be found anywhere in the process.
---
 defdap/utils.py | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 4e4bf6e..d7a5632 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -101,7 +101,6 @@ class Datastore(object):
         '_crop_func',
         '_mask_func'
     ]
-    _been_to = None
 
     @staticmethod
     def generate_id():
@@ -233,37 +232,38 @@ class Datastore(object):
         to get key-value pairs, imitating functionality of a dictionary.
 
         """
+        return self._keys()
+
+    def _keys(self, been_to=frozenset()):
         keys = list(self._store.keys())
         for derivative in self._derivatives:
-            keys += self.lookup_derivative_keys(derivative)
+            keys += self.lookup_derivative_keys(derivative, been_to)
         return keys
 
-    def lookup_derivative_keys(self, derivative):
-        root_call = False
-        if Datastore._been_to is None:
-            root_call = True
-            Datastore._been_to = set()
-        Datastore._been_to.add(self._group_id)
+    def lookup_derivative_keys(self, derivative, been_to=frozenset()):
+        # The groups already being looked up, to stop stores derived from
+        # each other recursing forever. This belongs to a single lookup
+        # and must not be shared with lookups in other threads or be left
+        # set if a lookup is interrupted.
+        been_to = been_to | {self._group_id}
 
         source = derivative['source']
         matched_keys = []
-        if source._group_id in Datastore._been_to:
+        if source._group_id in been_to:
             return matched_keys
-        for key in source:
+        for key in source._keys(been_to):
             for meta_key in derivative['in_props']:
-                if source.get_metadata(key, meta_key) != derivative['in_props'][meta_key]:
+                value = source._get_metadata(key, meta_key, been_to=been_to)
+                if value != derivative['in_props'][meta_key]:
                     break
             else:
                 matched_keys.append(key)
 
-        if root_call:
-            Datastore._been_to = None
-
         return matched_keys
 
-    def _get_derived_item(self, key, attr):
+    def _get_derived_item(self, key, attr, been_to=frozenset()):
         for derivative in self._derivatives:
-            if key in self.lookup_derivative_keys(derivative):
+            if key in self.lookup_derivative_keys(derivative, been_to):
                 break
             else:
                 raise KeyError(f'Data with name `{key}` does not exist.')
@@ -440,11 +440,14 @@ class Datastore(object):
         Metadata value or the default value.
 
         """
+        return self._get_metadata(key, attr, value)
+
+    def _get_metadata(self, key, attr, value=None, been_to=frozenset()):
         if key in self._store:
             return self._store[key].get(attr, value)
 
         try:
-            return self._get_derived_item(key, attr)
+            return self._get_derived_item(key, attr, been_to)
         except KeyError:
             return value
 
-- 
2.43.0


From 5f4a25495108ceace94e448871665b45e974ab73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 02/79] fix: look for derived data in every derivative, not
 only the first

---
 defdap/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index d7a5632..6d3bda1 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -265,8 +265,8 @@ class Datastore(object):
         for derivative in self._derivatives:
             if key in self.lookup_derivative_keys(derivative, been_to):
                 break
-            else:
-                raise KeyError(f'Data with name `{key}` does not exist.')
+        else:
+            raise KeyError(f'Data with name `{key}` does not exist.')
         source = derivative['source']
 
         ## TODO: fix derived metadata
-- 
2.43.0


From 115fcfef7323af60346aa73282cd736dfb84f232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 03/79] fix: replace the derived boundaries when another EBSD
 map is linked

The derived data was registered with a new lambda each time, so linking
again added a second derivative instead of updating the existing one and
boundaries kept being taken from the EBSD map linked first.
---
 defdap/hrdic.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index edf939c..08ffe7a 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -394,15 +394,27 @@ class Map(base.Map):
         kwargs.update({'type': transform_type.lower()})
         self.experiment.link_frames(self.frame, ebsd_map.frame, kwargs)
         self.data.add_derivative(
-            self.ebsd_map.data,
-            lambda boundaries: BoundarySet.from_ebsd_boundaries(
-                self, boundaries
-            ),
+            self.ebsd_map.data, self.warp_ebsd_boundaries,
             in_props={
                 'type': 'boundaries'
             }
         )
 
+    def warp_ebsd_boundaries(self, boundaries):
+        """Warp a set of boundaries from the linked EBSD map to this map.
+
+        Parameters
+        ----------
+        boundaries : defdap.ebsd.BoundarySet
+            Boundaries in the EBSD map.
+
+        Returns
+        -------
+        defdap.hrdic.BoundarySet
+
+        """
+        return BoundarySet.from_ebsd_boundaries(self, boundaries)
+
     def check_ebsd_linked(self):
         """Check if an EBSD map has been linked.
 
-- 
2.43.0


From ce560bdb9d1f9493ab95306f9d1669815fd74fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 04/79] fix: keep the grain map and grain list in step when
 finding grains

Calling find_grains directly replaced the list of grains but not the
grain map, and a failure after the list was replaced left the old map
with the new list.
---
 defdap/ebsd.py  | 4 +++-
 defdap/hrdic.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 56ee7ee..037c42d 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -940,7 +940,9 @@ class Map(base.Map):
             }
         )
 
-        self._grains = grain_list
+        # The grain map and the grain list must always be of the same set
+        # of grains, including if called directly or interrupted after here
+        self.data.grains, self._grains = grains, grain_list
         return grains
 
     def plot_grain_map(self, **kwargs):
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 08ffe7a..d8f9343 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -711,7 +711,9 @@ class Map(base.Map):
             }
         )
 
-        self._grains = grain_list
+        # The grain map and the grain list must always be of the same set
+        # of grains, including if called directly or interrupted after here
+        self.data.grains, self._grains = grains, grain_list
         return grains
 
     def grain_inspector(self, vmax=0.1, correction_angle=0, rdr_line_length=3):
-- 
2.43.0


From a031d38546bddeefd997eaebfbbc280d284e82f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 05/79] fix: only add a map to the experiment once it has
 loaded

A map that failed to load was left in the experiment, in place of any
map of the same name already in the increment.
---
 defdap/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index f4f2401..8f4abc4 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -67,9 +67,6 @@ class Map(ABC):
             self.experiment = experiment
             if experiment is None:
                 self.experiment = defdap.anonymous_experiment
-            self.increment = self.experiment.add_increment()
-        map_name = self.MAPNAME if map_name is None else map_name
-        self.increment.add_map(map_name, self)
 
         self.shape = (0, 0)
 
@@ -86,6 +83,12 @@ class Map(ABC):
         self.file_name = Path(file_name)
         self.load_data(self.file_name, data_type=data_type)
 
+        # only add the map to the experiment once it has loaded
+        if increment is None:
+            self.increment = self.experiment.add_increment()
+        map_name = self.MAPNAME if map_name is None else map_name
+        self.increment.add_map(map_name, self)
+
         self.data.add_generator(
             'proxigram', self.calc_proxigram, unit='', type='map', order=0,
             cropped=True
-- 
2.43.0


From 7f231e6c7e054cb4a6516f1faa70d674e2691c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 06/79] fix: rotate every loaded map and clear stale results in
 rotate_data

Orientations already generated were not reversed, layers other than band
contrast, band slope and phase were not reversed, maps without those
layers failed half rotated and results from before the rotation (grains,
boundaries, KAM, ...) were kept.
---
 defdap/ebsd.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 037c42d..808424b 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -248,11 +248,18 @@ class Map(base.Map):
 
         """
 
-        self.data.euler_angle = self.data.euler_angle[:, ::-1, ::-1]
-        self.data.band_contrast = self.data.band_contrast[::-1, ::-1]
-        self.data.band_slope = self.data.band_slope[::-1, ::-1]
-        self.data.phase = self.data.phase[::-1, ::-1]
-        self.calc_quat_array()
+        self.data.orientation = self.data.orientation[::-1, ::-1]
+
+        # Rotate all loaded maps and clear any data generated from them
+        generated = [key for keys in self.data._generators for key in keys
+                     if key != 'orientation']
+        for key in self.data._store:
+            if key in generated:
+                self.data[key] = None
+            elif (key != 'orientation' and
+                    self.data.get_metadata(key, 'type') == 'map'):
+                self.data[key] = self.data[key][..., ::-1, ::-1]
+        self._grains = None
 
         # Rotation from old coord system to new
         transform_quat = Quat.from_axis_angle(np.array([0, 0, 1]), np.pi).conjugate
-- 
2.43.0


From 6e628ec6f8b7f7791955ef988b92db57f7c09008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 07/79] fix: guess the position of a grain when linking EBSD
 maps

The click handler used attributes that do not exist so failed on every
click, and would have taken a wrong grain for a position not in a grain.
---
 defdap/ebsd.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 808424b..0597e5d 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1865,7 +1865,7 @@ class Linker(object):
         if event.inaxes is not plot.ax:
             return
 
-        curr_ebsd_map = plot.callingMap
+        curr_ebsd_map = plot.calling_map
 
         if curr_ebsd_map is self.ebsd_maps[0]:
             # clicked on 'master' map so highlight and guess grain on others
@@ -1886,8 +1886,13 @@ class Linker(object):
                 x = int((event.xdata - x0m) * scaling + x0)
                 y = int((event.ydata - y0m) * scaling + y0)
 
+                if not (0 <= x < ebsd_map.x_dim and 0 <= y < ebsd_map.y_dim):
+                    continue
+
                 grain_id = int(ebsd_map.data.grains[y, x]) - 1
-                grain = self[grain_id]
+                if grain_id < 0:
+                    continue
+                grain = ebsd_map[grain_id]
                 ebsd_map.sel_grain = grain
                 print(grain_id)
 
-- 
2.43.0


From 653bc25a09e794e65d26b047304f9c2b9a0ab755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 08/79] fix: do not link a DIC grain to an unrelated EBSD grain

Labels of points that are not in a grain were used as an index into the
list of grains, so counted from its end.
---
 defdap/hrdic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index d8f9343..7027c3f 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 
 from pathlib import Path
+from warnings import warn
 
 import numpy as np
 from matplotlib.pyplot import imread
@@ -690,10 +691,13 @@ class Map(base.Map):
                 # Find grain by masking the native ebsd grain image with
                 # selected grain from the warped dic grain image. The modal
                 # value is the EBSD grain label.
-                mode_id, _ = mode(
-                    self.ebsd_map.data.grains[warped_dic_grains == i+1],
-                    keepdims=False
-                )
+                ebsd_ids = self.ebsd_map.data.grains[warped_dic_grains == i+1]
+                # points that are not in a grain have no positive label
+                ebsd_ids = ebsd_ids[ebsd_ids > 0]
+                if len(ebsd_ids) == 0:
+                    warn(f"No EBSD grain found for grain {grain.grain_id}.")
+                    continue
+                mode_id, _ = mode(ebsd_ids, keepdims=False)
                 grain.ebsd_grain = self.ebsd_map[mode_id - 1]
                 grain.ebsd_map = self.ebsd_map
 
-- 
2.43.0


From d6e0106725c86145236e35ec37f1603092b1e696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 09/79] fix: check correlation values before they are set

---
 defdap/hrdic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 7027c3f..44876c6 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -236,13 +236,13 @@ class Map(base.Map):
         else:
             raise Exception("No loader found for this DIC data.")
             
-        self.corr_val = loaded_data
-        
-        assert self.xdim == self.corr_val.shape[1], \
+        assert self.xdim == loaded_data.shape[1], \
             "Dimensions of imported data and dic data do not match"
-        assert self.ydim == self.corr_val.shape[0], \
+        assert self.ydim == loaded_data.shape[0], \
             "Dimensions of imported data and dic data do not match"
 
+        self.corr_val = loaded_data
+
     def retrieve_name(self):
         """Gets the first name assigned to the a map, as a string
 
-- 
2.43.0


From 816833af4d68ef2d7b311a21e7a565ed3cf48ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:51 +0000
Subject: [PATCH 10/79] fix: do not apply part of an invalid crop

---
 defdap/hrdic.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 44876c6..7bee1a1 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -334,19 +334,23 @@ class Map(base.Map):
         dx = 0
         dy = 0
 
+        # convert all before making any changes
+        left, right, top, bottom = (
+            dist if dist is None else int(dist)
+            for dist in (left, right, top, bottom)
+        )
+
         # update crop distances
         if left is not None:
-            left = int(left)
             dx = self.crop_dists[0, 0] - left
             self.crop_dists[0, 0] = left
         if right is not None:
-            self.crop_dists[0, 1] = int(right)
+            self.crop_dists[0, 1] = right
         if top is not None:
-            top = int(top)
             dy = self.crop_dists[1, 0] - top
             self.crop_dists[1, 0] = top
         if bottom is not None:
-            self.crop_dists[1, 1] = int(bottom)
+            self.crop_dists[1, 1] = bottom
 
         # update homogo points if required
         if update_homog_points and (dx != 0 or dy != 0):
-- 
2.43.0


From bea11bd7bdbccba926f2d5712d818364547be0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 11/79] fix: read the fields after an unknown field in Oxford
 binary files

All fields after the first unknown one were left out of the record
format, and a field missing from a truncated header was taken for an
unknown field.
---
 defdap/file_readers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 74eb1bc..0d78bbd 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -492,11 +492,11 @@ class OxfordBinaryLoader(EBSDDataLoader):
             12: ('IB6', 'float32')  # ?
         }
         field_lookup.update(edx_fields)
-        try:
-            for i in range(int(metadata['Fields']['Count'])):
-                field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+        for i in range(int(metadata['Fields']['Count'])):
+            field_id = int(metadata['Fields']['Field{:}'.format(i + 1)])
+            if field_id in field_lookup:
                 data_format.append(field_lookup[field_id])
-        except KeyError:
+                continue
             print(f'\nUnknown field in file with key {field_id}. '
                   f'Assuming float32 data.')
             unknown_field_count += 1
-- 
2.43.0


From 447ba8a367591d4f51109113e42bd108750e2fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 12/79] fix: fail to load DaVis data with an incomplete row

The missing values of a file cut off within its last row were silently
loaded as NaN.
---
 defdap/file_readers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 0d78bbd..6211b2b 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -687,6 +687,8 @@ class DICDataLoader(ABC):
 
 
 class DavisLoader(DICDataLoader):
+    nan_values = ('nan', 'NaN', 'NAN', '-nan', '-NaN')
+
     def load(self, file_name: pathlib.Path) -> None:
         """ Load from Davis .txt file.
 
@@ -713,8 +715,10 @@ class DavisLoader(DICDataLoader):
 
         self.checkMetadata()
 
+        # an empty or missing value, i.e. in a truncated file, is an error
         data = pd.read_table(str(file_name), delimiter='\t', skiprows=1,
-                             header=None).values
+                             header=None, dtype=float, keep_default_na=False,
+                             na_values=DavisLoader.nan_values).values
         data = data.reshape(self.loaded_metadata['shape'] + (-1,))
         data = data.transpose((2, 0, 1))
 
@@ -742,7 +746,8 @@ class DavisLoader(DICDataLoader):
             raise FileNotFoundError("Cannot open file {}".format(file_name))
 
         data = pd.read_table(str(file_name), delimiter='\t', skiprows=1,
-                             header=None)
+                             header=None, dtype=float, keep_default_na=False,
+                             na_values=DavisLoader.nan_values)
 
         return np.array(data)
 
-- 
2.43.0


From 3875b4f47065efa9fc981a6c090816bef6c3cf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:25 +0000
Subject: [PATCH 13/79] fix: fail to load pyvale binary data with an incomplete
 record

---
 defdap/file_readers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 6211b2b..a4e370c 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -871,6 +871,8 @@ class PyValeLoader(DICDataLoader):
                 header = f.readline()[1:].split()
                 data = np.loadtxt(f, delimiter=',', dtype=data_format)
         elif self.file_type == 'binary':
+            if file_name.stat().st_size % data_format.itemsize != 0:
+                raise ValueError(f"Incomplete record in file {file_name}")
             data = np.fromfile(str(file_name), data_format, count=-1)
         else:
             raise ValueError(f"Unknown pyvale file type {self.file_type}")
-- 
2.43.0


From ba1f154690f0cf42af488951be377416b91c9b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 14/79] fix: close OpenPIV binary files after loading

---
 defdap/file_readers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index a4e370c..7d373d3 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -815,7 +815,9 @@ class OpenPivBinaryLoader(DICDataLoader):
         if not file_name.is_file():
             raise FileNotFoundError(f"Cannot open file {file_name}")
 
-        data = np.load(file_name)
+        keys = ('format', 'version', 'binning', 'shape', 'x', 'y', 'u', 'v')
+        with np.load(file_name) as npz_file:
+            data = {key: npz_file[key] for key in keys}
 
         # Software name and version
         self.loaded_metadata['format'] = data['format']
-- 
2.43.0


From a5e8af2f305ef326b7db098e23e9e325866f234c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 15/79] fix: only flip OpenPIV data that has y descending

---
 defdap/file_readers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 7d373d3..468eab5 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -794,8 +794,10 @@ class OpenPivTextLoader(DICDataLoader):
         self.checkMetadata()
         
         # if y descending, flip
-        if np.all(np.diff(data[:, col['y']].reshape(shape)[:,0])) > 0:
-            data = data.reshape(shape + (-1,))[::-1].transpose((2, 0, 1))
+        data = data.reshape(shape + (-1,))
+        if np.all(np.diff(data[:, 0, col['y']]) < 0):
+            data = data[::-1]
+        data = data.transpose((2, 0, 1))
 
         self.loaded_data.coordinate = data[[col['x'], col['y']]]
         self.loaded_data.displacement = data[[col['u'], col['v']]]
@@ -830,7 +832,7 @@ class OpenPivBinaryLoader(DICDataLoader):
         self.checkMetadata()
         
         # if y descending, flip
-        if np.all(np.diff(data['y'][:,0])) > 0:
+        if np.all(np.diff(data['y'][:, 0]) < 0):
             self.loaded_data.coordinate = np.array([data['x'][::-1], data['y'][::-1]])
             self.loaded_data.displacement = np.array([data['u'][::-1], data['v'][::-1]])
         else:
-- 
2.43.0


From 07dd231fbcee7906a6fbcec6dd92af30e30b74de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 16/79] fix: ignore key presses without a name when moving a
 homologous point

---
 defdap/experiment.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 5642aa0..a25b824 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -259,6 +259,10 @@ class Frame(object):
 
         """
         arrow_keys = ['left', 'right', 'up', 'down']
+        if event.key is None:
+            # key not known to matplotlib
+            return
+
         keys = event.key.split('+')
         key = keys[-1]
         if key not in arrow_keys:
-- 
2.43.0


From df52282804970a4ee093d1ee032c12eb4ebf0e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 17/79] fix: never overwrite a file when saving an EBSD map

A file created by another process or thread between the check and the
opening of the file was truncated.
---
 defdap/file_writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/file_writers.py b/defdap/file_writers.py
index d7c85a6..049f39d 100644
--- a/defdap/file_writers.py
+++ b/defdap/file_writers.py
@@ -85,7 +85,8 @@ class OxfordTextWriter(EBSDDataWriter):
             indexing='xy'
         )
 
-        with open(str(file_path), 'w') as ctf_file:
+        # must not replace a file created since the check above
+        with open(str(file_path), 'x') as ctf_file:
             # write header
             ctf_file.write("Channel Text File\n")
             ctf_file.write("Prj\t\n")
-- 
2.43.0


From f6f8855f0c9eaa0f1b5467a7db49e369f6a7115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:21 +0000
Subject: [PATCH 18/79] fix: save the space group of each phase

---
 defdap/file_writers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/file_writers.py b/defdap/file_writers.py
index 049f39d..46d60c2 100644
--- a/defdap/file_writers.py
+++ b/defdap/file_writers.py
@@ -108,7 +108,8 @@ class OxfordTextWriter(EBSDDataWriter):
                 angles = "{:.3f};{:.3f};{:.3f}".format(*angles)
 
                 ctf_file.write(f"{dims}\t{angles}\t{phase.name}"
-                               f"\t{phase.laue_group}\t0\t\t\t\n")
+                               f"\t{phase.laue_group}"
+                               f"\t{phase.spaceGroup or 0}\t\t\t\n")
 
             ctf_file.write("Phase\tX\tY\tBands\tError\tEuler1\tEuler2"
                            "\tEuler3\tMAD\tBC\tBS\n")
-- 
2.43.0


From 42429cf6f81a2f58ccbfc3adb66884250c3ead3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 19/79] fix: draw the group angles in the grain inspector

add_slip_bands detects bands in map data and does not take angles, so
the inspector could not be opened.
---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 8a77a39..0e277ea 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -331,7 +331,7 @@ class GrainInspector:
         # Draw slip bands
         bands = [elem[1] for elem in self.selected_dic_grain.groups_list]
         if self.selected_dic_grain.groups_list != None:
-            slipPlot.add_slip_bands(top_only=True, angles=list(np.deg2rad(bands)))
+            slipPlot.add_traces(np.deg2rad(bands), ['black'], top_only=True)
 
     def run_rdr_group(self,
                       event: int,
-- 
2.43.0


From 573e6a436544017400ab6d791679f783d71c2c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 20/79] fix: only store builtin types in inspector lines and
 groups

Numpy scalars are written to the session file as calls to their type,
which can not be loaded again.
---
 defdap/inspector.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 0e277ea..84204ae 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -195,7 +195,7 @@ class GrainInspector:
                 else:  # If there is more that one angle
                     if np.any(np.abs(np.array([x[1] for x in grain.groups_list]) - angle) < 10):
                         # If within +- 5 degrees of existing group, set that as the group
-                        group = np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle))
+                        group = int(np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle)))
                         grain.points_list[i][2] = group
                         new_average = float('{0:.2f}'.format(
                             np.average([x[1] for x in grain.points_list if x[2] == group])))
@@ -430,7 +430,7 @@ class GrainInspector:
         lin_reg_result = linregress(x=np.array(v_list).flatten(), y=np.array(u_list).flatten())
 
         # Save measured RDR
-        grain.groups_list[group][4] = lin_reg_result.slope
+        grain.groups_list[group][4] = float(lin_reg_result.slope)
 
         if show_plot:
             self.plot_rdr(grain, group, u_list, v_list, x_list, y_list, lin_reg_result)
-- 
2.43.0


From 1bd0b8d9e720bc2769a15d678b2641d23f40a102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 21/79] fix: do not average lines from a previous grouping into
 a group

---
 defdap/inspector.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 84204ae..fb0e579 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -186,6 +186,10 @@ class GrainInspector:
         if grain.points_list == []:
             grain.groups_list = []
         else:
+            # Forget previous grouping as it affects the average of a group
+            for line in grain.points_list:
+                line[2] = -1
+
             for i, line in enumerate(grain.points_list):
                 angle = line[1]
                 if i == 0:
-- 
2.43.0


From 0d22478659671c0cff64a510c77081307844ecf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 22/79] fix: report the orientation of each grain when running
 all STA

---
 defdap/inspector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index fb0e579..3ed5045 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -368,7 +368,7 @@ class GrainInspector:
             if grain.points_list != []:
                 for group in grain.groups_list:
                     maxSF = np.max([item for sublist in grain.ebsd_grain.average_schmid_factors for item in sublist])
-                    eulers = self.selected_ebsd_grain.ref_ori.euler_angles() * 180 / np.pi
+                    eulers = grain.ref_ori.euler_angles() * 180 / np.pi
                     text = '{0}\t{1:.1f}\t{2:.1f}\t{3:.1f}\t{4:.3f}\t'.format(
                         idx, eulers[0], eulers[1], eulers[2], maxSF)
                     text += '{0}\t{1:.1f}\t{2}\t{3}\t{4:.2f}'.format(
-- 
2.43.0


From 46fb04af0c4f76b0c88ec8211b378a9b84243ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 23/79] fix: stay on the same grain if going to a grain that
 does not exist

---
 defdap/inspector.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 3ed5045..30797f2 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -126,9 +126,10 @@ class GrainInspector:
 
         """
         # Go to grain ID specified in event
-        self.grain_id = int(event)
+        grain_id = int(event)
+        self.selected_dic_grain = self.selected_dic_map[grain_id]
+        self.grain_id = grain_id
         self.grain_plot.arrow = None
-        self.selected_dic_grain = self.selected_dic_map[self.grain_id]
         self.selected_ebsd_grain = self.selected_dic_grain.ebsd_grain
         self.redraw()
 
-- 
2.43.0


From d6f6bbe19a4da1ca8cb7ca37421d663a9942c6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 24/79] fix: keep the existing session file if saving it fails

---
 defdap/inspector.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 30797f2..d5ecfa4 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -614,7 +614,11 @@ class GrainInspector:
 
         """
 
-        with open(self.selected_dic_map.file_name.parent / str(self.filename), 'w') as file:
+        file_path = self.selected_dic_map.file_name.parent / str(self.filename)
+        temp_path = file_path.with_name(file_path.name + '.tmp')
+
+        # Only replace an existing file once all has been written
+        with open(temp_path, 'w') as file:
             file.write('# This is a file generated by defdap which contains ')
             file.write('definitions of slip lines drawn in grains by grainInspector\n')
             file.write('# [(x0, y0, x1, y1), angle, groupID]\n')
@@ -632,6 +636,8 @@ class GrainInspector:
                         file.write(str(group) + '\n')
                     file.write('\n')
 
+        temp_path.replace(file_path)
+
     def load_file(self,
                   event,
                   plot):
-- 
2.43.0


From 968b8d4dd3defd8b807fa676cf784b13aa905b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:28 +0000
Subject: [PATCH 25/79] fix: load all of an inspector session file or none of
 it

A file that could not be read to its end left the grains with some of
its lines, and lines were duplicated when loading a file twice.
---
 defdap/inspector.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index d5ecfa4..41a29b1 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -654,9 +654,12 @@ class GrainInspector:
         # Parse file and make list of 
         # [start index, grain ID, number of lines, number of groups]
         index_list = []
+        start_index = None
         for i, line in enumerate(lines):
             if line[0] != '#' and len(line) > 1:
                 if 'Grain' in line:
+                    if start_index is not None:
+                        raise ValueError(f'Session file incomplete at line {i + 1}.')
                     grain_id = int(line.split(' ')[-1])
                     start_index = i
                 if 'Lines' in line:
@@ -664,17 +667,28 @@ class GrainInspector:
                 if 'Groups' in line:
                     num_groups = int(line.split(' ')[0])
                     index_list.append([start_index, grain_id, num_lines, num_groups])
+                    start_index = None
+        if start_index is not None:
+            raise ValueError('Session file incomplete.')
 
-        # Write data from file into grain
+        # Read all data from file before changing any grain
+        loaded = []
         for start_index, grain_id, num_lines, num_groups in index_list:
             start_index_lines = start_index + 2
             grain_points = lines[start_index_lines:start_index_lines + num_lines]
-            for point in grain_points:
-                self.selected_dic_map[grain_id].points_list.append(ast.literal_eval(point.split('\\')[0]))
+            points_list = [ast.literal_eval(point.split('\\')[0]) for point in grain_points]
 
             start_index_groups = start_index + 3 + num_lines
             grain_groups = lines[start_index_groups:start_index_groups + num_groups]
-            for group in grain_groups:
-                self.selected_dic_map[grain_id].groups_list.append(ast.literal_eval(group.split('\\')[0]))
+            groups_list = [ast.literal_eval(group.split('\\')[0]) for group in grain_groups]
+
+            if len(points_list) != num_lines or len(groups_list) != num_groups:
+                raise ValueError(f'Session file incomplete for grain {grain_id}.')
+            loaded.append((self.selected_dic_map[grain_id], points_list, groups_list))
+
+        # Write data from file into grains
+        for grain, points_list, groups_list in loaded:
+            grain.points_list = points_list
+            grain.groups_list = groups_list
 
         self.redraw()
-- 
2.43.0


From 632f0cdc3c9958fda899eb8c7eac181954329771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 26/79] fix: read one column per field from EDAX ang files

---
 defdap/file_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 468eab5..121b114 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -301,7 +301,7 @@ class EdaxAngLoader(EBSDDataLoader):
             # ('SE_signal', 'float32'),
             ('FF', 'float32'),
         ])
-        load_cols = (0, 1, 2, 5, 6, 7, 8, 9)
+        load_cols = (0, 1, 2, 5, 6, 7, 9)
 
         # now read the data from file
         data = np.loadtxt(
-- 
2.43.0


From a6f191cbf40efae7c5dcdc8a1007572788c4e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:10 +0000
Subject: [PATCH 27/79] fix: only store the results of a grain when they are
 complete

---
 defdap/ebsd.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 0597e5d..40e4f91 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1288,10 +1288,8 @@ class Grain(base.Grain):
             mis_ori_axis[:, :] = (2 * dq[1:4, :] * np.arccos(dq[0, :])) / np.sqrt(1 - np.power(dq[0, :], 2))
 
             # hack it back into a list. Need to change self.*List to be arrays, it was a bad decision to
-            # make them lists in the beginning
-            self.mis_ori_axis_list = []
-            for row in mis_ori_axis.transpose():
-                self.mis_ori_axis_list.append(row)
+            # make them lists in the beginning. Only store once complete
+            self.mis_ori_axis_list = [row for row in mis_ori_axis.transpose()]
 
     def calc_grod(self):
         quat_comps = Quat.calc_sym_eqvs(self.data.orientation, self.crystal_sym)
@@ -1467,32 +1465,36 @@ class Grain(base.Grain):
         # Transform the load vector into crystal coordinates
         load_vector_crystal = grain_av_ori.transform_vector(load_vector)
 
-        self.average_schmid_factors = []
+        average_schmid_factors = []
         # flatten list of lists
         # slip_systems = chain.from_iterable(slip_systems)
 
         # Loop over groups of slip systems with same slip plane
         for i, slip_system_group in enumerate(slip_systems):
-            self.average_schmid_factors.append([])
+            average_schmid_factors.append([])
             # Then loop over individual slip systems
             for slip_system in slip_system_group:
                 schmidFactor = abs(np.dot(load_vector_crystal, slip_system.slip_plane) *
                                    np.dot(load_vector_crystal, slip_system.slip_dir))
-                self.average_schmid_factors[i].append(schmidFactor)
+                average_schmid_factors[i].append(schmidFactor)
 
-        return
+        # only store complete results
+        self.average_schmid_factors = average_schmid_factors
 
     def calc_rdr(self):
         """Calculate Relative Displacement Ratio values."""
-        self.rdr = []
+        rdr = []
 
         # Loop over groups of slip systems with same slip plane
         for i, slip_system_group in enumerate(self.phase.slip_systems):
-            self.rdr.append([])
+            rdr.append([])
             # Then loop over individual slip systems
             for slip_system in slip_system_group:
                 slip_dir_sample = self.ref_ori.conjugate.transform_vector(slip_system.slip_dir)
-                self.rdr[i].append(-slip_dir_sample[0] / slip_dir_sample[1])
+                rdr[i].append(-slip_dir_sample[0] / slip_dir_sample[1])
+
+        # only store complete results
+        self.rdr = rdr
 
     @property
     def slip_traces(self):
@@ -1547,8 +1549,8 @@ class Grain(base.Grain):
 
         screen_plane_norm_crystal = grain_av_ori.transform_vector(screen_plane_norm)
 
-        self.slip_trace_angles = []
-        self.slip_trace_inclinations = []
+        slip_trace_angles = []
+        slip_trace_inclinations = []
         # Loop over each group of slip systems
         for slip_system_group in slip_systems:
             # Take slip plane from first in group
@@ -1575,8 +1577,12 @@ class Grain(base.Grain):
             trace_angle = np.arccos(np.dot(intersection, np.array([0, 1.0, 0])))
 
             # Append to list
-            self.slip_trace_angles.append(trace_angle)
-            self.slip_trace_inclinations.append(inclination)
+            slip_trace_angles.append(trace_angle)
+            slip_trace_inclinations.append(inclination)
+
+        # only store complete results
+        self.slip_trace_inclinations = slip_trace_inclinations
+        self.slip_trace_angles = slip_trace_angles
 
 
 class BoundarySet(object):
-- 
2.43.0


From f51a8b40ce316a972965df127eedebddf035abb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:14 +0000
Subject: [PATCH 28/79] fix: visit each datastore once in a lookup

The lookup guard made local in an earlier commit followed paths instead of
remembering every visited store, so the grains of a map found their own
points through the grains found before and grains could not be found a
second time.
---
 defdap/utils.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 6d3bda1..0a6a78a 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -234,18 +234,20 @@ class Datastore(object):
         """
         return self._keys()
 
-    def _keys(self, been_to=frozenset()):
+    def _keys(self, been_to=None):
         keys = list(self._store.keys())
         for derivative in self._derivatives:
             keys += self.lookup_derivative_keys(derivative, been_to)
         return keys
 
-    def lookup_derivative_keys(self, derivative, been_to=frozenset()):
-        # The groups already being looked up, to stop stores derived from
-        # each other recursing forever. This belongs to a single lookup
-        # and must not be shared with lookups in other threads or be left
-        # set if a lookup is interrupted.
-        been_to = been_to | {self._group_id}
+    def lookup_derivative_keys(self, derivative, been_to=None):
+        # The groups visited so far, to stop stores derived from each
+        # other recursing forever or finding their own data again. This
+        # belongs to a single lookup and must not be shared with lookups
+        # in other threads or be left set if a lookup is interrupted.
+        if been_to is None:
+            been_to = set()
+        been_to.add(self._group_id)
 
         source = derivative['source']
         matched_keys = []
@@ -261,7 +263,7 @@ class Datastore(object):
 
         return matched_keys
 
-    def _get_derived_item(self, key, attr, been_to=frozenset()):
+    def _get_derived_item(self, key, attr, been_to=None):
         for derivative in self._derivatives:
             if key in self.lookup_derivative_keys(derivative, been_to):
                 break
@@ -442,7 +444,7 @@ class Datastore(object):
         """
         return self._get_metadata(key, attr, value)
 
-    def _get_metadata(self, key, attr, value=None, been_to=frozenset()):
+    def _get_metadata(self, key, attr, value=None, been_to=None):
         if key in self._store:
             return self._store[key].get(attr, value)
 
-- 
2.43.0


From 3e26e5f8020de21578bc1703861cdcc79bed5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:35 +0000
Subject: [PATCH 29/79] fix: mark no point of the boundary image if there are
 no boundaries

With no boundary points the index was empty and selected every point, so
the boundaries of a single crystal, or the phase boundaries of a single
phase map, covered the whole map.
---
 defdap/ebsd.py  | 4 +++-
 defdap/hrdic.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 40e4f91..23327f5 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1619,7 +1619,9 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.ebsd_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        # an empty index would select the whole image
+        if points:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 7bee1a1..8944ad6 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -919,7 +919,9 @@ class BoundarySet(object):
 
     def _image(self, points):
         image = np.zeros(self.dic_map.shape, dtype=bool)
-        image[tuple(zip(*points))[::-1]] = True
+        # an empty index would select the whole image
+        if points:
+            image[tuple(zip(*points))[::-1]] = True
         return image
 
     @property
-- 
2.43.0


From 3d0cab8d3b288639358297a1ef2d59adda89e7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 30/79] fix: average orientations in the same hemisphere

The symmetric equivalent closest to the current average was found using
the absolute dot product but then added without regard to its sign, so
for grains with a rotation angle close to 180 degrees points cancelled
out and the mean orientation was wrong.
---
 defdap/quat.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index d3a8d00..bb13116 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -752,13 +752,18 @@ class Quat(object):
             # calculate misorientation between current average and all
             # symmetrical equivalents. Dot product of each symm quat in
             # quatComps with refOri for point i
-            curr_mis_oris[:] = abs(np.einsum(
+            curr_mis_oris[:] = np.einsum(
                 "ij,j->i", quat_comps[:, :, i], av_ori
-            ))
+            )
 
-            # find min misorientation with current average then add to it
-            max_idx = np.argmax(curr_mis_oris[:])
-            av_ori += quat_comps[max_idx, :, i]
+            # find min misorientation with current average then add to it,
+            # as the one of the quat and its negative (same orientation)
+            # that is in the same hemisphere as the average
+            max_idx = np.argmax(abs(curr_mis_oris))
+            if curr_mis_oris[max_idx] < 0:
+                av_ori -= quat_comps[max_idx, :, i]
+            else:
+                av_ori += quat_comps[max_idx, :, i]
 
         # Convert components back to a quat and normalise
         av_ori = Quat(av_ori)
-- 
2.43.0


From e44c1642b3547a45f7d383e07b3c36f73c51b60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:22 +0000
Subject: [PATCH 31/79] fix: load inspector sessions with an RDR of nan

---
 defdap/inspector.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 41a29b1..90d233e 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -17,6 +17,7 @@ import numpy as np
 from scipy.stats import linregress
 from skimage.draw import line as skimage_line
 import ast
+import re
 import pandas as pd
 
 from defdap.plotting import Plot, GrainPlot
@@ -680,7 +681,12 @@ class GrainInspector:
 
             start_index_groups = start_index + 3 + num_lines
             grain_groups = lines[start_index_groups:start_index_groups + num_groups]
-            groups_list = [ast.literal_eval(group.split('\\')[0]) for group in grain_groups]
+            # An RDR that could not be measured is saved as nan, which is not a literal
+            groups_list = [ast.literal_eval(re.sub(r'\bnan\b', 'None', group.split('\\')[0]))
+                           for group in grain_groups]
+            for group in groups_list:
+                if group[-1] is None:
+                    group[-1] = float('nan')
 
             if len(points_list) != num_lines or len(groups_list) != num_groups:
                 raise ValueError(f'Session file incomplete for grain {grain_id}.')
-- 
2.43.0


From c5ec399219091c6576e2fb1328505f881b8749b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:46 +0000
Subject: [PATCH 32/79] fix: only sample valid points of the map to calculate
 the RDR

---
 defdap/inspector.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 90d233e..53debb1 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -421,12 +421,19 @@ class GrainInspector:
             xmap = np.array(x).T[:, None] + coordinateOffsets[:,0] + self.selected_dic_grain.extreme_coords[0]
             ymap = np.array(y).T[:, None] + coordinateOffsets[:,1] + self.selected_dic_grain.extreme_coords[1]
 
+            # Only sample along perpendicular lines where all points have a displacement
+            displacement = self.selected_dic_map.data.displacement
+            valid = np.all((ymap >= 0) & (ymap < displacement.shape[1])
+                           & (xmap >= 0) & (xmap < displacement.shape[2]), axis=1)
+            xmap, ymap = xmap[valid], ymap[valid]
+            valid = ~np.any(np.ma.getmaskarray(displacement[:, ymap, xmap]), axis=(0, 2))
+            xmap, ymap = xmap[valid], ymap[valid]
+
             x_list.extend(xmap - self.selected_dic_grain.extreme_coords[0])
             y_list.extend(ymap - self.selected_dic_grain.extreme_coords[1])
 
             # Get u and v values at each coordinate
-            u = self.selected_dic_map.data.displacement[0][ymap, xmap]
-            v = self.selected_dic_map.data.displacement[1][ymap, xmap]
+            u, v = np.ma.getdata(displacement[:, ymap, xmap])
 
             # Subtract mean u and v value for each row
             u_list.extend(u - np.mean(u, axis=1)[:, None])
-- 
2.43.0


From d611e0015ced91b76a408e50c2b7fe9b51a7fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 33/79] fix: keep the line that is shown if a new line is not
 finished on the plot

---
 defdap/plotting.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index d490bfd..d6b2a2e 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -67,6 +67,7 @@ class Plot(object):
                 self.ax = ax
         self.colour_bar = None
         self.arrow = None
+        self.press_point = None
 
         if title is not None:
             self.set_title(title)
@@ -274,11 +275,17 @@ class Plot(object):
         """
         # check if click was on the map
         if event.inaxes is not self.ax:
+            if event.name == 'button_press_event':
+                self.press_point = None
             return
 
         if event.name == 'button_press_event':
-            self.p1 = (event.xdata, event.ydata)  # save 1st point
+            self.press_point = (event.xdata, event.ydata)  # save 1st point
         elif event.name == 'button_release_event':
+            # only change the line once both of its points are known
+            if self.press_point is None:
+                return
+            self.p1 = self.press_point
             self.p2 = (event.xdata, event.ydata)  # save 2nd point
             self.add_arrow(start_end=(self.p1[0], self.p1[1], self.p2[0], self.p2[1]))
             self.fig.canvas.draw_idle()
-- 
2.43.0


From 876f208dbf173a78347df2698c364647a97d2b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 34/79] fix: get the proxigram of a map from its data

---
 defdap/base.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index 8f4abc4..9d1242b 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -74,7 +74,6 @@ class Map(ABC):
 
         self.sel_grain = None
 
-        self.proxigram_arr = None
         self.neighbour_network = None
 
         self.grain_plot = None
@@ -392,9 +391,7 @@ class Map(ABC):
             Distance from a grain boundary at each point in map.
 
         """
-        self.calc_proxigram(force_calc=False)
-
-        return self.proxigram_arr
+        return self.data.proxigram
 
     @report_progress("calculating proxigram")
     def calc_proxigram(self, num_trials=500):
-- 
2.43.0


From f8af062a18030142e26fba01a196853f4cdeea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:49 +0000
Subject: [PATCH 35/79] fix: use the point shown under a click on a map

---
 defdap/base.py       | 26 ++++++++++++++++++++++++--
 defdap/ebsd.py       |  6 +++---
 defdap/experiment.py |  3 ++-
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index 9d1242b..b294571 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -181,6 +181,28 @@ class Map(ABC):
 
         return plot
 
+    def event_grain_id(self, event):
+        """Grain ID at the point of the map shown under an event.
+
+        Parameters
+        ----------
+        event :
+            Click event.
+
+        Returns
+        -------
+        int
+            Grain ID, negative if there is no grain.
+
+        """
+        grains = self.data.grains
+        # points are plotted centred on their coordinates
+        x, y = int(np.floor(event.xdata + 0.5)), int(np.floor(event.ydata + 0.5))
+        if not (0 <= x < grains.shape[1] and 0 <= y < grains.shape[0]):
+            return -1
+
+        return grains[y, x] - 1
+
     def click_grain_id(self, event, plot, display_grain):
         """Event handler to capture clicking on a map.
 
@@ -199,7 +221,7 @@ class Map(ABC):
             return
 
         # grain id of selected grain
-        grain_id = self.data.grains[int(event.ydata), int(event.xdata)] - 1
+        grain_id = self.event_grain_id(event)
         if grain_id < 0:
             return
         grain = self[grain_id]
@@ -351,7 +373,7 @@ class Map(ABC):
             return
 
         # grain id of selected grain
-        grain_id = self.data.grains[int(event.ydata), int(event.xdata)] - 1
+        grain_id = self.event_grain_id(event)
         if grain_id < 0:
             return
         grain = self[grain_id]
diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 23327f5..8ed3c4e 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1839,7 +1839,7 @@ class Linker(object):
         if event.inaxes is not plot.ax:
             return
 
-        origin = (int(event.xdata), int(event.ydata))
+        origin = (int(np.floor(event.xdata + 0.5)), int(np.floor(event.ydata + 0.5)))
         plot.calling_map.origin = origin
         plot.add_points([origin[0]], [origin[1]], update_layer=0)
         print(f"Origin set to ({origin[0]}, {origin[1]})")
@@ -1891,8 +1891,8 @@ class Linker(object):
                 y0 = ebsd_map.origin[1]
                 scaling = curr_ebsd_map.step_size / ebsd_map.step_size
 
-                x = int((event.xdata - x0m) * scaling + x0)
-                y = int((event.ydata - y0m) * scaling + y0)
+                x = int(np.floor((event.xdata - x0m) * scaling + x0 + 0.5))
+                y = int(np.floor((event.ydata - y0m) * scaling + y0 + 0.5))
 
                 if not (0 <= x < ebsd_map.x_dim and 0 <= y < ebsd_map.y_dim):
                     continue
diff --git a/defdap/experiment.py b/defdap/experiment.py
index a25b824..16edc1a 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -243,7 +243,8 @@ class Frame(object):
         # right mouse click or shift + left mouse click
         # shift click doesn't work in osx backend
         if event.button == 3 or (event.button == 1 and event.key == 'shift'):
-            plot.add_points([int(event.xdata)], [int(event.ydata)], update_layer=1)
+            plot.add_points([int(np.floor(event.xdata + 0.5))], [int(np.floor(event.ydata + 0.5))],
+                            update_layer=1)
 
     @staticmethod
     def homog_key(event, plot):
-- 
2.43.0


From 5a6384e16b91cb8280b11fa99c14ac320959fca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:13 +0000
Subject: [PATCH 36/79] fix: do not replace homologous points by invalid values

---
 defdap/experiment.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index 16edc1a..a016d48 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -335,8 +335,13 @@ class Frame(object):
         if homog_idx >= len(self.homog_points):
             raise Exception("homog_idx is out of range.")
 
+        if new_point is None and delta is None:
+            raise Exception("Either new_point or delta must be given.")
+
         # Update all points
         if homog_idx < 0:
+            if new_point is not None:
+                raise Exception("new_point can only be set for a single point.")
             for i in range(len(self.homog_points)):
                 self.update_homog_points(homog_idx=i, delta=delta)
             return
@@ -344,11 +349,11 @@ class Frame(object):
         # Update a single point
         # overwrite point
         if new_point is not None:
-            if type(new_point) is not tuple and len(new_point) != 2:
+            if len(new_point) != 2:
                 raise Exception("newPoint must be a 2 component tuple")
         # increment current point
         elif delta is not None:
-            if type(delta) is not tuple and len(delta) != 2:
+            if len(delta) != 2:
                 raise Exception("delta must be a 2 component tuple")
             new_point = list(self.homog_points[homog_idx])
             new_point[0] += delta[0]
-- 
2.43.0


From 56368b0ae9bd7292e7f5e8db699b2b59533826e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:36 +0000
Subject: [PATCH 37/79] fix: do not share homologous points between frames

---
 defdap/experiment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index a016d48..d754ea7 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -182,7 +182,7 @@ class Frame(object):
         points : numpy.ndarray, optional
             Array of (x,y) homologous points to set explicitly.
         """
-        self.homog_points = points
+        self.homog_points = [tuple(point) for point in points]
 
     def set_homog_point(self, map_obj, map_name=None, **kwargs):
         """
-- 
2.43.0


From 0341216469b1a9a046b1fde320179486a9ea448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:59 +0000
Subject: [PATCH 38/79] fix: fail if a frame transform can not be estimated

---
 defdap/experiment.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/defdap/experiment.py b/defdap/experiment.py
index d754ea7..f83ab99 100644
--- a/defdap/experiment.py
+++ b/defdap/experiment.py
@@ -64,11 +64,14 @@ class Experiment(object):
         if reverse and calc_inverse:
             frames = frames[::-1]
 
-        transform.estimate(
+        success = transform.estimate(
             np.array(frames[0].homog_points),
             np.array(frames[1].homog_points),
             **{k: v for k, v in transform_props.items() if k != 'type'}
         )
+        if not success:
+            raise ValueError('Transform could not be estimated from the '
+                             'homologous points.')
 
         if reverse and not calc_inverse:
             transform = transform.inverse
-- 
2.43.0


From 6701b2dd0c8fc292ccf03bc2806e0b66171a5fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:20 +0000
Subject: [PATCH 39/79] fix: reset the selected grain when locating grains

---
 defdap/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/defdap/base.py b/defdap/base.py
index b294571..204a9a7 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -165,6 +165,7 @@ class Map(ABC):
 
         """
         # reset current selected grain and plot euler map with click handler
+        self.sel_grain = None
         plot = self.plot_default(make_interactive=True, **kwargs)
         if click_event is None:
             # default click handler which highlights grain and prints id
-- 
2.43.0


From e6858ca92b884db9348c1720e49714ce83086f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:07 +0000
Subject: [PATCH 40/79] fix: keep corrected line angles between 0 and 180
 degrees

---
 defdap/inspector.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 53debb1..48f6063 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -149,16 +149,11 @@ class GrainInspector:
         # Get angle of lines
         line_angle = 90 - np.rad2deg(np.arctan2(self.grain_plot.p2[1] - self.grain_plot.p1[1],
                                                 self.grain_plot.p2[0] - self.grain_plot.p1[0]))
-        if line_angle > 180:
-            line_angle -= 180
-        elif line_angle < 0:
-            line_angle += 180
-
         line_angle -= self.correction_angle
 
         # Two decimal places
         points = [float("{:.2f}".format(point)) for point in self.grain_plot.p1 + self.grain_plot.p2]
-        line_angle = float("{:.2f}".format(line_angle))
+        line_angle = float("{:.2f}".format(line_angle % 180)) % 180
 
         # Save drawn line to the DIC grain
         self.selected_dic_grain.points_list.append([points, line_angle, -1])
-- 
2.43.0


From 520dab94898997c63a421ba83188b90bee96a501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:51 +0000
Subject: [PATCH 41/79] fix: remove a line only once per submitted ID

---
 defdap/inspector.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 48f6063..5286c20 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -90,8 +90,8 @@ class GrainInspector:
                                change_handler=self.update_filename, initial=self.filename)
         self.plot.add_text_box(label='Go to \ngrain ID:', loc=(div_frac + 0.17, 0.94, 0.05, 0.04),
                                submit_handler=self.goto_grain)
-        self.plot.add_text_box(label='Remove\nID:', loc=(div_frac + 0.1, 0.48, 0.05, 0.04),
-                               submit_handler=self.remove_line)
+        self.remove_text_box = self.plot.add_text_box(label='Remove\nID:', loc=(div_frac + 0.1, 0.48, 0.05, 0.04),
+                                                      submit_handler=self.remove_line)
         self.rdr_group_text_box = self.plot.add_text_box(label='Run RDR only\non group:', loc=(0.78, 0.07, 0.05, 0.04),
                                                          submit_handler=self.run_rdr_group)
 
@@ -242,9 +242,12 @@ class GrainInspector:
 
         """
         # Remove single line
-        del self.selected_dic_grain.points_list[int(event)]
-        self.group_lines()
-        self.redraw()
+        if event != '':
+            del self.selected_dic_grain.points_list[int(event)]
+            self.group_lines()
+            # Leaving the text box submits its text again
+            self.remove_text_box.set_val('')
+            self.redraw()
 
     def redraw(self):
         """Draw items which need to be redrawn when changing grain ID.
-- 
2.43.0


From 72f9bad966d7e7dccb3bbc9c58033d21b4b130fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:52 +0000
Subject: [PATCH 42/79] fix: show highlighted grains in the given colours

---
 defdap/plotting.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index d6b2a2e..51352c9 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -540,7 +540,7 @@ class MapPlot(Plot):
 
         # Custom colour map where 0 is transparent white for bg and
         # then a patch for each grain colour
-        grain_colours.insert(0, 'white')
+        grain_colours = ['white', *grain_colours]
         highlightsCmap = mpl.colors.ListedColormap(grain_colours)
         highlightsCmap._init()
         alphaMap = np.full(highlightsCmap.N + 3, alpha)
@@ -549,7 +549,8 @@ class MapPlot(Plot):
 
         if self.highlights_layer_id is None or new_layer:
             img = self.ax.imshow(outline, interpolation='none',
-                                 cmap=highlightsCmap)
+                                 cmap=highlightsCmap,
+                                 vmin=0, vmax=len(grain_colours) - 1)
             if self.highlights_layer_id is None:
                 self.highlights_layer_id = len(self.img_layers)
             self.img_layers.append(img)
@@ -557,7 +558,7 @@ class MapPlot(Plot):
             img = self.img_layers[self.highlights_layer_id]
             img.set_data(outline)
             img.set_cmap(highlightsCmap)
-            img.autoscale()
+            img.set_clim(0, len(grain_colours) - 1)
 
         self.draw()
 
-- 
2.43.0


From 61f41767f41072adf7c7b1a2a7df428a80c232ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 43/79] fix: forget the arrow when a plot is cleared

---
 defdap/plotting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 51352c9..1928f3b 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -309,6 +309,7 @@ class Plot(object):
             self.colour_bar.remove()
             self.colour_bar = None
         self.ax.clear()
+        self.arrow = None
         self.set_empty_state()
         self.draw()
 
-- 
2.43.0


From c9d6bd730ddf3c2a052f3621b4a91b3ec7a38611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 44/79] fix: colour four boundary lines with a named colour

---
 defdap/plotting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 1928f3b..6bca55f 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -464,9 +464,9 @@ class MapPlot(Plot):
 
         if kind == "line":
             if isinstance(colour, str):
-                colour = mpl.colors.to_rgba(colour)
-
-            if len(colour) == len(boundaries.lines):
+                colour_array = None
+                colour_lc = mpl.colors.to_rgba(colour)
+            elif len(colour) == len(boundaries.lines):
                 colour_array = colour
                 colour_lc = None
             elif len(colour) == 4:
-- 
2.43.0


From e9e3ecfd5cc6b058c66a16836fe7d12086f5488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:43 +0000
Subject: [PATCH 45/79] fix: do not take another figure for a closed plot

---
 defdap/plotting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 6bca55f..7d6da12 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -18,6 +18,7 @@ from functools import partial
 import numpy as np
 import matplotlib as mpl
 import matplotlib.pyplot as plt
+from matplotlib._pylab_helpers import Gcf
 
 from matplotlib.widgets import Button, TextBox
 from matplotlib.collections import LineCollection
@@ -297,7 +298,9 @@ class Plot(object):
     def exists(self):
         self.check_interactive()
 
-        return plt.fignum_exists(self.fig.number)
+        # numbers of closed figures are used again by new ones
+        return any(manager.canvas.figure is self.fig
+                   for manager in Gcf.get_all_fig_managers())
 
     def clear(self):
         """Clear plot.
-- 
2.43.0


From a3b5f157b463c76925dd3ccbcc1c7398497c0abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:37 +0000
Subject: [PATCH 46/79] fix: load slip system files holding a single system

---
 defdap/crystal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/crystal.py b/defdap/crystal.py
index b38c418..4e6662a 100755
--- a/defdap/crystal.py
+++ b/defdap/crystal.py
@@ -421,7 +421,7 @@ class SlipSystem(object):
             vect_size = 3
 
         ss_data = np.loadtxt(filepath, delimiter='\t', skiprows=2,
-                            dtype=np.int8)
+                            dtype=np.int8, ndmin=2)
         if ss_data.shape[1] != 2 * vect_size:
             raise IOError("Slip system file not valid")
 
-- 
2.43.0


From 7aa6f4b5f8c5059eb4e2a3bab53cc5c7e4a2dada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:10 +0000
Subject: [PATCH 47/79] fix: read a slip system file through one open file

---
 defdap/crystal.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/defdap/crystal.py b/defdap/crystal.py
index 4e6662a..ac67a32 100755
--- a/defdap/crystal.py
+++ b/defdap/crystal.py
@@ -411,17 +411,17 @@ class SlipSystem(object):
             except FileNotFoundError:
                 raise(FileNotFoundError("Couldn't find the slip systems file"))
 
-        slip_system_file.readline()
-        slip_trace_colours = slip_system_file.readline().strip().split(',')
-        slip_system_file.close()
+        with slip_system_file:
+            slip_system_file.readline()
+            slip_trace_colours = slip_system_file.readline().strip().split(',')
+            ss_data = np.loadtxt(slip_system_file, delimiter='\t',
+                                 dtype=np.int8, ndmin=2)
 
         if crystal_structure.name == "hexagonal":
             vect_size = 4
         else:
             vect_size = 3
 
-        ss_data = np.loadtxt(filepath, delimiter='\t', skiprows=2,
-                            dtype=np.int8, ndmin=2)
         if ss_data.shape[1] != 2 * vect_size:
             raise IOError("Slip system file not valid")
 
-- 
2.43.0


From 30a0109f979070acb50ef92564e612fac29c21b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:45 +0000
Subject: [PATCH 48/79] fix: normalise the load vector of Schmid factors

---
 defdap/ebsd.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 8ed3c4e..9b004ca 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1463,6 +1463,7 @@ class Grain(base.Grain):
         grain_av_ori = self.ref_ori
 
         # Transform the load vector into crystal coordinates
+        load_vector = np.asarray(load_vector) / np.linalg.norm(load_vector)
         load_vector_crystal = grain_av_ori.transform_vector(load_vector)
 
         average_schmid_factors = []
-- 
2.43.0


From 948ac60b7fb3fd152d0a13e33bbbe9d084411695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:10 +0000
Subject: [PATCH 49/79] fix: use the chosen directions of all planes in Schmid
 factor maps

---
 defdap/ebsd.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 9b004ca..22a4c3b 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1125,16 +1125,16 @@ class Map(base.Map):
             current_sf = []
 
             if planes is not None:
-                for plane in planes:
-                    if directions is not None:
-                        for direction in directions:
-                            current_sf.append(
-                                grain.average_schmid_factors[plane][direction]
-                            )
-                    else:
-                        current_sf += grain.average_schmid_factors[plane]
+                sf_groups = [grain.average_schmid_factors[plane]
+                             for plane in planes]
             else:
-                for sf_group in grain.average_schmid_factors:
+                sf_groups = grain.average_schmid_factors
+
+            for sf_group in sf_groups:
+                if directions is not None:
+                    current_sf += [sf_group[direction]
+                                   for direction in directions]
+                else:
                     current_sf += sf_group
 
             grains_sf_max.append(max(current_sf))
-- 
2.43.0


From 846c1d7097c80348893717f11e47f4422779888f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 50/79] fix: draw the boundary map in the default colour

---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 22a4c3b..8ceea9f 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -849,7 +849,7 @@ class Map(base.Map):
         # Set default plot parameters then update with any input
         plot_params = {
             'plot_gbs': True,
-            'boundaryColour': 'black'
+            'boundary_colour': 'black'
         }
         plot_params.update(kwargs)
 
-- 
2.43.0


From 7d35349c9cb57adad2b2b617bced24ef1da7c809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:20 +0000
Subject: [PATCH 51/79] fix: keep the background of integer grain maps

---
 defdap/base.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index 204a9a7..b61cbfa 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -686,7 +686,11 @@ class Map(ABC):
             raise ValueError("The grain data supplied must be either a"
                              "single value or RGB values per grain.")
 
-        grain_map = np.full(mapShape, bg, dtype=grain_data.dtype)
+        dtype = grain_data.dtype
+        if dtype.kind in 'biu':
+            # Background (e.g. nan) may not be storable in the data type
+            dtype = np.result_type(dtype, *np.ravel(bg).tolist())
+        grain_map = np.full(mapShape, bg, dtype=dtype)
         for grainId, grain_value in zip(grain_ids, grain_data):
             for point in self[grainId].data.point:
                 grain_map[point[1], point[0]] = grain_value
@@ -979,7 +983,11 @@ class Grain(ABC):
             map_shape = map_shape + grain_data.shape[1:]
         
         # Create output array with appropriate dtype
-        grain_map_data = np.full(map_shape, bg, dtype=grain_data.dtype)
+        dtype = grain_data.dtype
+        if dtype.kind in 'biu':
+            # Background (e.g. nan) may not be storable in the data type
+            dtype = np.result_type(dtype, *np.ravel(bg).tolist())
+        grain_map_data = np.full(map_shape, bg, dtype=dtype)
 
         for coord, data in zip(self.data.point, grain_data):
             grain_map_data[coord[1] - y0, coord[0] - x0] = data
-- 
2.43.0


From e6daa9f48c9c637034f8dfd90937280e5eaa2f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:38 +0000
Subject: [PATCH 52/79] fix: accept a single grain ID when averaging over
 grains

---
 defdap/base.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index b61cbfa..cd46511 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -628,8 +628,11 @@ class Map(ABC):
             Array containing the grain average values.
 
         """
-        if type(grain_ids) is int and grain_ids == -1:
-            grain_ids = range(len(self))
+        if type(grain_ids) is int:
+            if grain_ids == -1:
+                grain_ids = range(len(self))
+            else:
+                grain_ids = [grain_ids]
 
         grain_average_data = np.zeros(len(grain_ids))
 
@@ -778,8 +781,11 @@ class Map(ABC):
             else:
                 grain_data = self.calc_grain_average(map_data, grain_ids=grain_ids)
 
-        if type(grain_ids) is int and grain_ids == -1:
-            grain_ids = range(len(self))
+        if type(grain_ids) is int:
+            if grain_ids == -1:
+                grain_ids = range(len(self))
+            else:
+                grain_ids = [grain_ids]
 
         if len(grain_data) != len(grain_ids):
             raise Exception("Must be 1 value for each grain in grain_data.")
-- 
2.43.0


From 30d6e26469acd88a52b38af9d456ab4fdf98119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 53/79] fix: leave masked points out of the statistics table

---
 defdap/hrdic.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 8944ad6..458be18 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -309,7 +309,9 @@ class Map(base.Map):
         for c in components:
             # Iterate over tensor components (i.e. e11, e22, e12)
             for i in np.ndindex(self.data[c].shape[:len(np.shape(self.data[c]))-2]):
-                per = [np.nanpercentile(self.data[c][i], p) for p in percentiles]
+                # Exclude any masked points
+                comp_data = np.ma.compressed(self.data[c][i])
+                per = [np.nanpercentile(comp_data, p) for p in percentiles]
                 print(str_format.format(c+''.join([str(t+1) for t in i]), *per))
 
     def set_crop(self, *, left=None, right=None, top=None, bottom=None,
-- 
2.43.0


From a4dfa1ddb44507dfc4213a2addcf807f2ad3fb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 54/79] fix: leave masked points out of histograms

---
 defdap/plotting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 7d6da12..30400c4 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1442,6 +1442,9 @@ class HistPlot(Plot):
 
         """
 
+        # Exclude any masked points
+        hist_data = np.ma.compressed(hist_data)
+
         # Generate the x bins with appropriate spaceing for linear or log
         if self.axes_type == 'logx' or self.axes_type == 'loglog':
             bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins)
@@ -1450,7 +1453,7 @@ class HistPlot(Plot):
 
         if self.plot_type == 'scatter':
             # Generate the histogram data and plot as a scatter plot
-            hist = np.histogram(hist_data.flatten(), bins=bin_list, density=self.density)
+            hist = np.histogram(hist_data, bins=bin_list, density=self.density)
             y_vals = hist[0]
             x_vals = 0.5 * (hist[1][1:] + hist[1][:-1])
 
@@ -1458,7 +1461,7 @@ class HistPlot(Plot):
 
         else:
             # Plot as a matplotlib histogram
-            self.ax.hist(hist_data.flatten(), bins=bin_list, histtype=self.plot_type,
+            self.ax.hist(hist_data, bins=bin_list, histtype=self.plot_type,
                          density=self.density, label=label, **kwargs)
 
     def add_legend(self, **kwargs):
-- 
2.43.0


From 8a1c44fbeeb9b4f312a1aa5a0fa8171bae4933ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:53 +0000
Subject: [PATCH 55/79] fix: use the range of the data when no histogram range
 is given

---
 defdap/plotting.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 30400c4..6c053ec 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1445,8 +1445,20 @@ class HistPlot(Plot):
         # Exclude any masked points
         hist_data = np.ma.compressed(hist_data)
 
+        log_bins = self.axes_type == 'logx' or self.axes_type == 'loglog'
+
+        if range is None:
+            # Use the range of the data which can be shown on the x-axis
+            valid = np.isfinite(hist_data)
+            if log_bins:
+                valid &= hist_data > 0
+            if not valid.any():
+                raise ValueError("No data in a range that can be plotted.")
+            range = (float(hist_data[valid].min()),
+                     float(hist_data[valid].max()))
+
         # Generate the x bins with appropriate spaceing for linear or log
-        if self.axes_type == 'logx' or self.axes_type == 'loglog':
+        if log_bins:
             bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins)
         else:
             bin_list = np.linspace(range[0], range[1], bins)
-- 
2.43.0


From a5ef6a8e48da207dd33e46d1b96f71768444a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 56/79] fix: use the given number of bins in histograms

---
 defdap/plotting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 6c053ec..c8b4822 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1459,9 +1459,9 @@ class HistPlot(Plot):
 
         # Generate the x bins with appropriate spaceing for linear or log
         if log_bins:
-            bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins)
+            bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins + 1)
         else:
-            bin_list = np.linspace(range[0], range[1], bins)
+            bin_list = np.linspace(range[0], range[1], bins + 1)
 
         if self.plot_type == 'scatter':
             # Generate the histogram data and plot as a scatter plot
-- 
2.43.0


From f89707dde8258c2c248f1179a3215bd15cadc663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:39 +0000
Subject: [PATCH 57/79] fix: count points at the ends of logarithmic histograms

---
 defdap/plotting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index c8b4822..78168ac 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1460,6 +1460,8 @@ class HistPlot(Plot):
         # Generate the x bins with appropriate spaceing for linear or log
         if log_bins:
             bin_list = np.logspace(np.log10(range[0]), np.log10(range[1]), bins + 1)
+            # Rounding must not move the ends past the data
+            bin_list[0], bin_list[-1] = range
         else:
             bin_list = np.linspace(range[0], range[1], bins + 1)
 
-- 
2.43.0


From e266e0340622c766cbad465391fd05927843a324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 58/79] fix: name a valid default component for coordinates and
 displacements

---
 defdap/file_readers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 121b114..1d90156 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -618,7 +618,7 @@ class DICDataLoader(ABC):
         self.loaded_data = Datastore()
         self.loaded_data.add(
             'coordinate', None, unit='px', type='map', order=1,
-            default_component='magnitude',
+            default_component='norm',
             plot_params={
                 'plot_colour_bar': True,
                 'clabel': 'Coordinate',
@@ -626,7 +626,7 @@ class DICDataLoader(ABC):
         )
         self.loaded_data.add(
             'displacement', None, unit='px', type='map', order=1,
-            default_component='magnitude',
+            default_component='norm',
             plot_params={
                 'plot_colour_bar': True,
                 'clabel': 'Displacement',
-- 
2.43.0


From 303ad2c7902962e12b8f83b19c658ff5e23106e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:24 +0000
Subject: [PATCH 59/79] fix: keep masked points masked in the norm of map data

---
 defdap/base.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index cd46511..4bfa653 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -543,7 +543,12 @@ class Map(ABC):
                 else:
                     raise ValueError('Unsupported data for norm.')
 
-                return np.linalg.norm(map_data, axis=axis)
+                norm = np.linalg.norm(map_data, axis=axis)
+                if np.ma.isMaskedArray(map_data):
+                    mask = np.ma.getmaskarray(map_data).any(axis=axis)
+                    norm = np.ma.masked_array(norm, mask=mask)
+
+                return norm
 
             if comp == 'all_euler':
                 return self.calc_euler_colour(map_data)
@@ -1176,7 +1181,12 @@ class Grain(ABC):
                 else:
                     raise ValueError('Unsupported data for norm.')
 
-                return np.linalg.norm(map_data, axis=axis)
+                norm = np.linalg.norm(map_data, axis=axis)
+                if np.ma.isMaskedArray(map_data):
+                    mask = np.ma.getmaskarray(map_data).any(axis=axis)
+                    norm = np.ma.masked_array(norm, mask=mask)
+
+                return norm
 
             if comp == 'all_euler':
                 return self.calc_euler_colour(map_data)
-- 
2.43.0


From a25de7abb438d99b1fecf416b172d4ff3c535d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:46 +0000
Subject: [PATCH 60/79] fix: plot on the axis or figure that was given

---
 defdap/plotting.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 78168ac..6947c08 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -44,28 +44,21 @@ class Plot(object):
     def __init__(self, ax=None, ax_params={}, fig=None, make_interactive=False,
                  title=None, **kwargs):
         self.interactive = make_interactive
+        # TODO: flag for new figure
+        if ax is not None:
+            self.fig = ax.figure if fig is None else fig
+            self.ax = ax
+        else:
+            self.fig = plt.figure(**kwargs) if fig is None else fig
+            self.ax = self.fig.add_subplot(111, **ax_params)
+
         if make_interactive:
-            if fig is not None and ax is not None:
-                self.fig = fig
-                self.ax = ax
-            else:
-                # self.fig, self.ax = plt.subplots(**kwargs)
-                self.fig = plt.figure(**kwargs)
-                self.ax = self.fig.add_subplot(111, **ax_params)
             self.btn_store = []
             self.txt_store = []
             self.txt_box_store = []
             self.p1 = []
             self.p2 = []
 
-        else:
-            self.fig = fig
-            # TODO: flag for new figure
-            if ax is None:
-                self.fig = plt.figure(**kwargs)
-                self.ax = self.fig.add_subplot(111, **ax_params)
-            else:
-                self.ax = ax
         self.colour_bar = None
         self.arrow = None
         self.press_point = None
-- 
2.43.0


From 3971d6089079183601cdc12a5e9afad4a07df0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:01 +0000
Subject: [PATCH 61/79] fix: leave masked points out of line profiles

---
 defdap/base.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index 4bfa653..71388a5 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -278,12 +278,17 @@ class Map(ABC):
         profile_length = np.sqrt((y1 - y0) ** 2 + (x1 - x0) ** 2)
 
         # Extract the values along the line
+        map_data = plot.img_layers[0].get_array()
+        start = (start_end[1], start_end[0])
+        end = (start_end[3], start_end[2])
         zi = profile_line(
-            plot.img_layers[0].get_array(),
-            (start_end[1], start_end[0]),
-            (start_end[3], start_end[2]),
-            mode='nearest'
+            np.ma.getdata(map_data), start, end, mode='nearest'
         )
+        if np.ma.is_masked(map_data):
+            # Remove values that any masked point contributes to
+            mask = np.ma.getmaskarray(map_data).astype(float)
+            mask = profile_line(mask, start, end, mode='nearest') > 1e-6
+            zi = np.ma.masked_array(zi, mask=mask)
         xi = np.linspace(0, profile_length, len(zi))
 
         if self.profile_plot is None or not self.profile_plot.exists:
-- 
2.43.0


From 2a342bc3f96b8f55c1267fad9f32afcd50a935ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:55 +0000
Subject: [PATCH 62/79] fix: no rotation vector of nan for points without
 misorientation

---
 defdap/ebsd.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 8ceea9f..3edf215 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -1284,8 +1284,7 @@ class Grain(base.Grain):
 
             dq[:, dq[0] < 0] = -dq[:, dq[0] < 0]
 
-            # numpy broadcasting taking care of different array sizes
-            mis_ori_axis[:, :] = (2 * dq[1:4, :] * np.arccos(dq[0, :])) / np.sqrt(1 - np.power(dq[0, :], 2))
+            mis_ori_axis[:, :] = self._calc_rotation_vector(dq)
 
             # hack it back into a list. Need to change self.*List to be arrays, it was a bad decision to
             # make them lists in the beginning. Only store once complete
@@ -1313,9 +1312,31 @@ class Grain(base.Grain):
         dq[3] = (ref_ori_inv[3]*quat_comps[0] + ref_ori_inv[0]*quat_comps[3] +
                  ref_ori_inv[2]*quat_comps[1] - ref_ori_inv[1]*quat_comps[2])
         dq[:, dq[0] < 0] *= -1
-        misori_axis = (2 * dq[1:4] * np.arccos(dq[0])) / np.sqrt(1 - dq[0]**2)
+        misori_axis = self._calc_rotation_vector(dq)
 
         return misori, misori_axis
+
+    @staticmethod
+    def _calc_rotation_vector(dq):
+        """Calculate rotation vectors (axis multiplied by angle in radians)
+        of quaternions with a positive scalar part.
+
+        Parameters
+        ----------
+        dq : numpy.ndarray
+            Quaternion components, shape (4, num).
+
+        Returns
+        -------
+        numpy.ndarray
+            Rotation vectors, shape (3, num). Zero for no rotation.
+
+        """
+        sin_half = np.sqrt((dq[1:4]**2).sum(axis=0))
+        return np.divide(
+            2 * dq[1:4] * np.arctan2(sin_half, dq[0]), sin_half,
+            out=np.zeros_like(dq[1:4]), where=sin_half > 0
+        )
     
     def calc_ipf_colour(self, grain_data, direction, bg_colour=None):
 
-- 
2.43.0


From 44ab3884597e4409c3622732cbcd4744312c01ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 63/79] fix: keep flood fills inside maps that are one point
 wide or high

---
 defdap/_accelerated.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/defdap/_accelerated.py b/defdap/_accelerated.py
index dd90896..bf01e6a 100644
--- a/defdap/_accelerated.py
+++ b/defdap/_accelerated.py
@@ -55,17 +55,11 @@ def flood_fill(seed, index, points_remaining, grains, boundary_x, boundary_y,
     while edge:
         x, y = edge.pop()
         moves = [(x+1, y), (x-1, y), (x, y+1), (x, y-1)]
-        # get rid of any that go out of the map area
-        if x <= 0:
-            moves.pop(1)
-        elif x > grains.shape[1] - 2:
-            moves.pop(0)
-        if y <= 0:
-            moves.pop(-1)
-        elif y > grains.shape[0] - 2:
-            moves.pop(-2)
-
         for (s, t) in moves:
+            # ignore any that go out of the map area
+            if not (0 <= s < grains.shape[1] and 0 <= t < grains.shape[0]):
+                continue
+
             if grains[t, s] > 0:
                 continue
 
@@ -134,17 +128,11 @@ def flood_fill_dic(seed, index, points_remaining, grains, added_coords):
         x, y = edge.pop()
 
         moves = [(x+1, y), (x-1, y), (x, y+1), (x, y-1)]
-        # get rid of any that go out of the map area
-        if x <= 0:
-            moves.pop(1)
-        elif x >= grains.shape[1] - 1:
-            moves.pop(0)
-        if y <= 0:
-            moves.pop(-1)
-        elif y >= grains.shape[0] - 1:
-            moves.pop(-2)
-
         for (s, t) in moves:
+            # ignore any that go out of the map area
+            if not (0 <= s < grains.shape[1] and 0 <= t < grains.shape[0]):
+                continue
+
             add_point = False
 
             if grains[t, s] == 0:
-- 
2.43.0


From 54bc7bcfb93b236a3d2a4beebfb73bb99415f47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:29 +0000
Subject: [PATCH 64/79] fix: find directions on edges of the fundamental
 triangle

---
 defdap/quat.py | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/defdap/quat.py b/defdap/quat.py
index bb13116..d73e4da 100755
--- a/defdap/quat.py
+++ b/defdap/quat.py
@@ -1040,8 +1040,13 @@ class Quat(object):
             'ijk,ijk->jk', direction_crystal, direction_crystal
         ))
 
-        # move all vectors into north hemisphere
-        direction_crystal[:, direction_crystal[2, :, :] < 0] *= -1
+        # move all vectors into north hemisphere and those on its edge,
+        # allowing for rounding, to the side of the fundamental triangle
+        tol = np.sqrt(np.finfo(dtype).eps)
+        direction_crystal[:, np.where(
+            np.abs(direction_crystal[2]) < tol,
+            direction_crystal[1] < 0, direction_crystal[2] < 0
+        )] *= -1
 
         # convert to spherical coordinates
         alpha, beta = Quat.polar_angles(
@@ -1050,41 +1055,40 @@ class Quat(object):
 
         # find the poles in the fundamental triangle
         if sym_group == "cubic":
-            beta_range = (np.pi / 2, 3/4 * np.pi, 3)
+            beta_range = (np.pi / 2, 3/4 * np.pi)
 
         elif sym_group == "hexagonal":
             if triangle is None:
                 triangle = defaults['ipf_triangle_convention']
 
             if triangle == 'up':
-                beta_range = (np.pi / 2, 2/3 * np.pi, 1)
+                beta_range = (np.pi / 2, 2/3 * np.pi)
             elif triangle == 'down':
-                beta_range = (1/3 * np.pi, np.pi / 2, 1)
+                beta_range = (1/3 * np.pi, np.pi / 2)
             else:
                 ValueError("`triangle` must be 'up' or 'down'")
         else:
             raise ValueError("sym_group must be cubic or hexagonal")
         
-        trial_poles = np.logical_and(beta >= beta_range[0], beta <= beta_range[1])
-        # expand search slightly to catch edge cases if needed
-        if np.any(np.sum(trial_poles, axis=0) < beta_range[2]):
-            delta_beta = 1e-8
-            trial_poles = np.logical_and(
-                beta >= beta_range[0] - delta_beta,
-                beta <= beta_range[1] + delta_beta
-            )
+        # distance of each pole outside the range of azimuthal angle, zero if
+        # inside. A pole along z is inside whatever its (arbitrary) azimuth
+        outside = np.hypot(direction_crystal[0], direction_crystal[1]) * (
+            np.abs(beta - np.clip(beta, *beta_range))
+        )
 
         if sym_group == "cubic":
-            # now of symmetric equivalents left we want the one with
-            # minimum alpha
+            # of symmetric equivalents in the range (allowing for rounding of
+            # those on an edge) we want the one with minimum alpha
+            trial_poles = outside <= tol
             fund_idx = np.nanargmin(np.where(trial_poles, alpha, np.nan), axis=0)
         else:
             # non-indexed points cause more than 1 symmetric equivalent, use this
             # to pick one and filter non-indexed points later
-            fund_idx = trial_poles.argmax(axis=0)
+            fund_idx = outside.argmin(axis=0)
 
         fund_idx = (fund_idx, range(len(fund_idx)))
-        return alpha[fund_idx], beta[fund_idx]
+        return (np.minimum(alpha[fund_idx], np.pi / 2),
+                np.clip(beta[fund_idx], *beta_range))
 
     @staticmethod
     def sym_eqv(symGroup: str) -> List['Quat']:
-- 
2.43.0


From 563ceaa76daa2c6894d26fbe50155f8a0f38273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 65/79] fix: keep the orientation gradients in x and y apart in
 the Nye tensor

---
 defdap/ebsd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 3edf215..3f9a65a 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -517,7 +517,7 @@ class Map(base.Map):
 
         # calculate relative elastic distortion tensors at each point in the two directions
         betaderx = np.zeros((3, 3) + self.shape)
-        betadery = betaderx
+        betadery = np.zeros((3, 3) + self.shape)
         for i in range(self.x_dim - 1):
             for j in range(self.y_dim - 1):
                 q0x = Quat(quat_comps[0, 0, j, i], quat_comps[0, 1, j, i],
-- 
2.43.0


From 6c6999fc570dc37d34227cfebbb7fd0b569b457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:11 +0000
Subject: [PATCH 66/79] fix: find the neighbours of HRDIC grains

---
 defdap/base.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/defdap/base.py b/defdap/base.py
index 71388a5..054eece 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -311,7 +311,9 @@ class Map(ABC):
         nn = nx.Graph()
         nn.add_nodes_from(self.grains)
 
-        y_locs, x_locs = np.nonzero(self.boundaries)
+        y_locs, x_locs = np.nonzero(
+            self.data.grain_boundaries.image
+        )
         total_points = len(x_locs)
 
         for i_point, (x, y) in enumerate(zip(x_locs, y_locs)):
@@ -335,8 +337,9 @@ class Map(ABC):
                 self.data.grains[y, x - 1] - 1
             }
             # neighbours = set(neighbours)
-            # remove boundary points (-2) and points in small
-            # grains (-3) (Normally -1 and -2)
+            # remove points in no grain (-1), boundary points (-2) and
+            # points in small grains (-3) (Normally 0, -1 and -2)
+            neighbours.discard(-1)
             neighbours.discard(-2)
             neighbours.discard(-3)
 
-- 
2.43.0


From 92138bb4aabdcbc83ba9bfca89ac133fe46f1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:25 +0000
Subject: [PATCH 67/79] fix: draw points of pole plots in one or two colours

---
 defdap/plotting.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 6947c08..8d1857b 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1180,11 +1180,17 @@ class PolePlot(Plot):
         if marker_colour is None:
             points = self.ax.scatter(xp, yp, **kwargs)
             self.img_layers.append(points)
+        elif len(marker_colour) == 1:
+            points = self.ax.scatter(
+                xp, yp, s=marker_size, c=marker_colour[0], **kwargs
+            )
+            self.img_layers.append(points)
         elif len(marker_colour) == 2:
             pos = (xp, yp)
             r1 = 0.5
             r2 = r1 + 0.5
-            marker_size = np.sqrt(marker_size)
+            # the markers are the two halves
+            kwargs.pop('marker', None)
 
             x = [0] + np.cos(np.linspace(0, 2 * np.pi * r1, 10)).tolist()
             y = [0] + np.sin(np.linspace(0, 2 * np.pi * r1, 10)).tolist()
@@ -1195,12 +1201,12 @@ class PolePlot(Plot):
             xy2 = list(zip(x, y))
 
             points = self.ax.scatter(
-                pos[0], pos[1], marker=(xy1, 0),
+                pos[0], pos[1], marker=xy1,
                 s=marker_size, c=marker_colour[0], **kwargs
             )
             self.img_layers.append(points)
             points = self.ax.scatter(
-                pos[0], pos[1], marker=(xy2, 0),
+                pos[0], pos[1], marker=xy2,
                 s=marker_size, c=marker_colour[1], **kwargs
             )
             self.img_layers.append(points)
-- 
2.43.0


From 0e24603a61351749ea066d8729974692695d94d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:35 +0000
Subject: [PATCH 68/79] fix: load EBSD maps from Python dictionaries

---
 defdap/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index 054eece..459cc5c 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -79,7 +79,9 @@ class Map(ABC):
         self.grain_plot = None
         self.profile_plot = None
 
-        self.file_name = Path(file_name)
+        if not isinstance(file_name, dict):
+            file_name = Path(file_name)
+        self.file_name = file_name
         self.load_data(self.file_name, data_type=data_type)
 
         # only add the map to the experiment once it has loaded
-- 
2.43.0


From 37e30540abb948718fa379fa2e3465f4910ee01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 69/79] fix: recognise .ctf header entries at the start of the
 line only

---
 defdap/file_readers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 1d90156..940ecba 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -132,19 +132,19 @@ class OxfordTextLoader(EBSDDataLoader):
         acq_eulers = [0., 0., 0.]
         with open(str(file_name), 'r') as ctf_file:
             for i, line in enumerate(ctf_file):
-                if 'XCells' in line:
+                if line.startswith('XCells'):
                     x_dim = int(line.split()[-1])
-                elif 'YCells' in line:
+                elif line.startswith('YCells'):
                     y_dim = int(line.split()[-1])
-                elif 'XStep' in line:
+                elif line.startswith('XStep'):
                     self.loaded_metadata['step_size'] = float(line.split()[-1])
-                elif 'AcqE1' in line:
+                elif line.startswith('AcqE1'):
                     acq_eulers[0] = float(line.split()[-1])
-                elif 'AcqE2' in line:
+                elif line.startswith('AcqE2'):
                     acq_eulers[1] = float(line.split()[-1])
-                elif 'AcqE3' in line:
+                elif line.startswith('AcqE3'):
                     acq_eulers[2] = float(line.split()[-1])
-                elif 'Phases' in line:
+                elif line.startswith('Phases'):
                     num_phases = int(line.split()[-1])
                     self.loaded_data['phase', 'plot_params']['vmax'] = num_phases
                     for j in range(num_phases):
-- 
2.43.0


From c4f1bbefdca072ff13bc83ac39d76f9e2f060aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:05 +0000
Subject: [PATCH 70/79] fix: keep the whole of a phase name in .ang files

---
 defdap/file_readers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/file_readers.py b/defdap/file_readers.py
index 940ecba..4673742 100644
--- a/defdap/file_readers.py
+++ b/defdap/file_readers.py
@@ -351,7 +351,7 @@ class EdaxAngLoader(EBSDDataLoader):
             line = line.split()
 
             if line[0] == 'MaterialName':
-                name = line[1]
+                name = ' '.join(line[1:])
             if line[0] == 'Symmetry':
                 point_group = line[1]
                 if point_group in ('43', 'm3m'):
-- 
2.43.0


From 2aac5daf6b0b974c5f6d5b5f1f3a5a7c5d7ab2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:30 +0000
Subject: [PATCH 71/79] fix: average orientations of either sign in the
 Kuwahara filter

---
 defdap/ebsd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 3f9a65a..347be8e 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -647,10 +647,10 @@ class Map(base.Map):
                 ]
                 quats = quadrants[min_mis_ori_quadrant[i, j]]
 
-                mis_oris_quad = np.abs(
-                    np.einsum("ijk,i->jk", quats, ref_quat)
-                )
-                quats = quats[:, mis_oris_quad > misori_tol]
+                cos_mis_ori = np.einsum("ijk,i->jk", quats, ref_quat)
+                close = np.abs(cos_mis_ori) > misori_tol
+                # a quat and its negative are the same orientation
+                quats = quats[:, close] * np.sign(cos_mis_ori[close])
 
                 avOri = np.einsum("ij->i", quats)
                 # avOri /= np.sqrt(np.dot(avOri, avOri))
-- 
2.43.0


From f64e8de1cf790b4017070e112e22235c297863d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:46 +0000
Subject: [PATCH 72/79] fix: clear data generated from orientations that are
 then smoothed

---
 defdap/ebsd.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/defdap/ebsd.py b/defdap/ebsd.py
index 347be8e..307d973 100755
--- a/defdap/ebsd.py
+++ b/defdap/ebsd.py
@@ -666,7 +666,12 @@ class Map(base.Map):
 
         self.data.orientation = quat_array_new
 
-        return quats
+        # Clear any data generated from the previous orientations
+        for keys in self.data._generators:
+            for key in keys:
+                if key != 'orientation':
+                    self.data[key] = None
+        self._grains = None
 
     @report_progress("finding grain boundaries")
     def find_boundaries(self, misori_tol=10):
-- 
2.43.0


From 28167820a6ba6b818cf3fd09f5407fe96b8dada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:49 +0000
Subject: [PATCH 73/79] fix: keep data stores independent when merging them

---
 defdap/utils.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 0a6a78a..440265e 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -418,11 +418,9 @@ class Datastore(object):
             in both. Default is to prioritise `other`.
 
         """
-        if priority == 'self':
-            other._store.update(self._store)
-            self._store = other._store
-        else:
-            self._store.update(other._store)
+        for key, item in other._store.items():
+            if priority != 'self' or key not in self._store:
+                self._store[key] = dict(item)
 
     def get_metadata(self, key, attr, value=None):
         """Get metadata value with a default returned if it does not
-- 
2.43.0


From 648628a25d7e3a25de30d0b3cb47eaa1814e0c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:04 +0000
Subject: [PATCH 74/79] fix: add all of the data of a generator or none

---
 defdap/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/defdap/utils.py b/defdap/utils.py
index 440265e..7e694fe 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -337,6 +337,10 @@ class Datastore(object):
             keys = (keys, )
         if isinstance(metadatas, dict):
             metadatas = (metadatas, )
+        # add all of the data or, if any can not be, none
+        for key in keys:
+            if key in self:
+                raise ValueError(f'Data with name `{key}` already exists.')
         for i, key in enumerate(keys):
             if metadatas is None:
                 metadata = {}
-- 
2.43.0


From a16887bfe217ee5e119227a52e3dd5a4fbc36245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:54 +0000
Subject: [PATCH 75/79] fix: group lines across 0 and 180 degrees in the grain
 inspector

---
 defdap/inspector.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/defdap/inspector.py b/defdap/inspector.py
index 5286c20..363dd56 100644
--- a/defdap/inspector.py
+++ b/defdap/inspector.py
@@ -162,6 +162,21 @@ class GrainInspector:
         self.group_lines()
         self.redraw_line()
 
+    @staticmethod
+    def nearest_angle(angle, ref_angle):
+        """ Angle of the same line that is nearest to a reference angle, as
+        angles of lines repeat every 180 degrees.
+
+        Parameters
+        ----------
+        angle
+            Angle(s) in degrees.
+        ref_angle
+            Reference angle in degrees.
+
+        """
+        return angle + 180 * np.round((ref_angle - angle) / 180)
+
     def group_lines(self,
                     grain: 'defdap.hrdic.Grain' = None):
         """
@@ -194,12 +209,16 @@ class GrainInspector:
                     grain.groups_list = [[0, angle, 0, 0, 0]]
                     next_group = 1
                 else:  # If there is more that one angle
-                    if np.any(np.abs(np.array([x[1] for x in grain.groups_list]) - angle) < 10):
+                    group_angles = np.array([x[1] for x in grain.groups_list])
+                    deviations = np.abs(self.nearest_angle(group_angles, angle) - angle)
+                    if np.any(deviations < 10):
                         # If within +- 5 degrees of existing group, set that as the group
-                        group = int(np.argmin(np.abs(np.array([x[1] for x in grain.groups_list]) - angle)))
+                        group = int(np.argmin(deviations))
                         grain.points_list[i][2] = group
+                        group_angle = grain.groups_list[group][1]
                         new_average = float('{0:.2f}'.format(
-                            np.average([x[1] for x in grain.points_list if x[2] == group])))
+                            np.average([self.nearest_angle(x[1], group_angle)
+                                        for x in grain.points_list if x[2] == group]) % 180)) % 180
                         grain.groups_list[group][1] = new_average
                     else:
                         # Make new group and set
@@ -213,6 +232,7 @@ class GrainInspector:
                 deviation = []
                 experimental_angle = group[1]
                 for idx, theoretical_angle in enumerate(np.rad2deg(grain.ebsd_grain.slip_trace_angles)):
+                    theoretical_angle = self.nearest_angle(theoretical_angle, experimental_angle)
                     if theoretical_angle - 5 < experimental_angle < theoretical_angle + 5:
                         active_planes.append(idx)
                         deviation.append(float('{0:.2f}'.format(experimental_angle - theoretical_angle)))
-- 
2.43.0


From f26d02b2e20e3706d599e74aea3490a5540fd3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:59 +0000
Subject: [PATCH 76/79] fix: grain outline with nan outside the grain

---
 defdap/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/defdap/base.py b/defdap/base.py
index 459cc5c..148e5a5 100755
--- a/defdap/base.py
+++ b/defdap/base.py
@@ -921,7 +921,8 @@ class Grain(ABC):
         x0, y0, xmax, ymax = self.extreme_coords
 
         # initialise array with nans so area not in grain displays white
-        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg, dtype=int)
+        outline = np.full((ymax - y0 + 1, xmax - x0 + 1), bg,
+                          dtype=np.result_type(bg, fg))
 
         for coord in self.data.point:
             outline[coord[1] - y0, coord[0] - x0] = fg
-- 
2.43.0


From 48456a691a3c11d7be682bfa512f6161ede3b2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:02 +0000
Subject: [PATCH 77/79] fix: slip bands along the vertical were not found

---
 defdap/hrdic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/defdap/hrdic.py b/defdap/hrdic.py
index 458be18..407fd9b 100755
--- a/defdap/hrdic.py
+++ b/defdap/hrdic.py
@@ -888,8 +888,11 @@ class Grain(base.Grain):
 
         x = np.arange(180)
 
-        indexes = peakutils.indexes(profile, thres=thres, min_dist=min_dist)
-        peaks = x[indexes]
+        # repeat the profile as it is periodic, to find peaks at its ends
+        indexes = peakutils.indexes(
+            np.tile(profile, 3), thres=thres, min_dist=min_dist
+        )
+        peaks = x[indexes[(indexes >= 180) & (indexes < 360)] - 180]
         # peaks = peakutils.interpolate(x, profile, ind=indexes)
         print("Number of bands detected: {:}".format(len(peaks)))
 
-- 
2.43.0


From 1f806901f54adee8de490f4fed2478d7f1cc7539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:20 +0000
Subject: [PATCH 78/79] fix: refused calculations leave no names, metadata
 given is not changed

---
 defdap/utils.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/defdap/utils.py b/defdap/utils.py
index 7e694fe..ed18bab 100644
--- a/defdap/utils.py
+++ b/defdap/utils.py
@@ -338,15 +338,16 @@ class Datastore(object):
         if isinstance(metadatas, dict):
             metadatas = (metadatas, )
         # add all of the data or, if any can not be, none
-        for key in keys:
-            if key in self:
+        metadatas = [
+            {**({} if metadatas is None else metadatas[i]), **kwargs}
+            for i in range(len(keys))
+        ]
+        for key, metadata in zip(keys, metadatas):
+            if key in self or keys.count(key) > 1:
                 raise ValueError(f'Data with name `{key}` already exists.')
-        for i, key in enumerate(keys):
-            if metadatas is None:
-                metadata = {}
-            else:
-                metadata = metadatas[i]
-            metadata.update(kwargs)
+            if 'data' in metadata:
+                raise ValueError(f'Metadata name `data` is not allowed.')
+        for key, metadata in zip(keys, metadatas):
             self.add(key, None, **metadata)
         self._generators[keys] = func
 
-- 
2.43.0


From 3b5f899fe1c9fa4464cbf5c1d6eb22ffc2fc9ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:01 +0000
Subject: [PATCH 79/79] fix: legend of a pole plot was put on another plot

---
 defdap/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/defdap/plotting.py b/defdap/plotting.py
index 8d1857b..8516dde 100644
--- a/defdap/plotting.py
+++ b/defdap/plotting.py
@@ -1254,7 +1254,7 @@ class PolePlot(Plot):
 
         """
         img = self.img_layers[layer]
-        self.legend = plt.legend(
+        self.legend = self.ax.legend(
             *img.legend_elements("sizes", num=number, func=lambda s: s / scaling), 
             title=label, 
             **kwargs
-- 
2.43.0

