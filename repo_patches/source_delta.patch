From bd7cce151575775c3f0a2e4bf633f8e173396f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:12 +0000
Subject: [PATCH 01/52] fix: errors without a hint could not be converted to a
 string

---
 lattpy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index daebe60..5360ed1 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -62,10 +62,10 @@ class ConfigurationError(LatticeError):
 
     @property
     def hint(self):
-        return self.args[1]
+        return self.args[1] if len(self.args) > 1 else None
 
     def __str__(self):
-        msg, hint = self.args
+        msg, hint = self.msg, self.hint
         if hint:
             msg += f" ({hint})"
         return msg
-- 
2.43.0


From 018c72cd2eab88d32041d0af74ca588dedf0028f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:38 +0000
Subject: [PATCH 02/52] fix: adding an atom after the analysis failed and left
 stale neighbor data

---
 lattpy/structure.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 62c1b9f..ea3169d 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -251,7 +251,7 @@ class LatticeStructure(LatticeBasis):
             atom = Atom(atom, **kwargs)
 
         self._atoms.append(atom)
-        self._positions.append(np.asarray(pos))
+        self._positions = [*self._positions, np.asarray(pos)]
 
         # Update number of base atoms if data is valid
         num_base = len(self._atoms)
@@ -262,6 +262,7 @@ class LatticeStructure(LatticeBasis):
         # Initial array for number of neighbour distances
         # for current number of atoms in the unit cell
         self._connections = np.zeros((num_base, num_base), dtype=np.int64)
+        self._base_neighbors = None
 
         if neighbors:
             self.add_connections(neighbors)
-- 
2.43.0


From f60f522939bb42524b34b1664f2db0f43893510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:47 +0000
Subject: [PATCH 03/52] fix: changed connections were ignored by build until
 the next analysis

---
 lattpy/structure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index ea3169d..1b0212e 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -412,6 +412,7 @@ class LatticeStructure(LatticeBasis):
         for i, j in itertools.product(alpha1, alpha2):
             self._connections[i, j] = num_distances
             self._connections[j, i] = num_distances
+        self._base_neighbors = None
         if analyze:
             self.analyze()
 
@@ -445,6 +446,7 @@ class LatticeStructure(LatticeBasis):
         >>> latt.add_connections(num_distances=1)
         """
         self._connections.fill(num_distances)
+        self._base_neighbors = None
         if analyze:
             self.analyze()
 
-- 
2.43.0


From ad000850f7189f75e1c29136e9cd49fd1c6d9eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:55 +0000
Subject: [PATCH 04/52] fix: zero vector of get_neighbor_vectors was shifted by
 the atom position

---
 lattpy/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 1b0212e..0b19f61 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -850,9 +850,9 @@ class LatticeStructure(LatticeBasis):
 
         pos0 = self._positions[alpha]
         pos1 = self.get_neighbor_positions(alpha=alpha, distidx=distidx)
-        if include_zero:
-            pos1 = np.append(np.zeros((1, self.dim)), pos1, axis=0)
         vecs = pos1 - pos0
+        if include_zero:
+            vecs = np.append(np.zeros((1, self.dim)), vecs, axis=0)
         logger.debug("Neighbour-vectors: %s", vecs)
 
         return vecs
-- 
2.43.0


From 289b2550ac6bac20da42c69ed0f67df9e50cfc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:04 +0000
Subject: [PATCH 05/52] fix: number of neighbors overflowed for more than 127
 neighbors

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 0b19f61..48b67ca 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -600,7 +600,7 @@ class LatticeStructure(LatticeBasis):
         max_num_distances = len(unique_distances)
 
         # Compute number of neighbors for each atom in the unit cell
-        num_neighbors = np.zeros(self.num_base, dtype=np.int8)
+        num_neighbors = np.zeros(self.num_base, dtype=np.int64)
         for i, neighbors in enumerate(base_neighbors):
             num_neighbors[i] = sum(len(indices) for indices in neighbors.values())
 
-- 
2.43.0


From 74f7629c97bb57c314976e2793c57b7e53eb6b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:02 +0000
Subject: [PATCH 06/52] fix: builds in skewed or shifted boxes missed sites

---
 lattpy/structure.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 48b67ca..8e48da0 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1052,17 +1052,14 @@ class LatticeStructure(LatticeBasis):
             pos = np.zeros(self.dim)
         end = pos + shape
 
-        # Estimate the maximum needed translation vector to reach all points
+        # Estimate the maximum needed translation vector to reach all points and atoms
+        corners = np.array(list(itertools.product(*zip(pos, end))))
+        offsets = np.array([np.zeros(self.dim), *self._positions])
+        index = self.itranslate(corners[:, np.newaxis] - offsets)[0]
+        index = index.reshape(-1, self.dim)
         max_nvecs = np.array(
-            [self.itranslate(pos)[0], self.itranslate(end)[0]], dtype=np.float64
+            [np.min(index, axis=0), np.max(index, axis=0)], dtype=np.float64
         )
-        for i in range(1, self.dim):
-            for idx in itertools.combinations(range(self.dim), r=i):
-                _pos = end.copy()
-                _pos[np.array(idx)] = 0
-                index = self.itranslate(_pos)[0]
-                max_nvecs[0] = np.min([index, max_nvecs[0]], axis=0)
-                max_nvecs[1] = np.max([index, max_nvecs[1]], axis=0)
         # Pad maximum translation vectors and create index limits
         padding = oversample * shape + 1
         max_nvecs += [-padding, +padding]
-- 
2.43.0


From 69d465e639a7c9978c574766b4e17563396991ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:30 +0000
Subject: [PATCH 07/52] fix: primitive builds depended on the cell size and
 failed for integer shapes

---
 lattpy/structure.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 8e48da0..3886065 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -42,7 +42,7 @@ from .plotting import (
 )
 from .spatial import vindices, interweave, KDTree
 from .atom import Atom
-from .shape import AbstractShape
+from .shape import AbstractShape, Shape
 from .basis import basis_t, LatticeBasis
 
 logger = logging.getLogger(__name__)
@@ -966,7 +966,7 @@ class LatticeStructure(LatticeBasis):
                     f"match the dimension of the lattice {self.dim}"
                 )
             if relative:
-                shape += np.max(self.vectors, axis=0) - 0.1 * self.norms
+                shape = shape + np.max(self.vectors, axis=0) - 0.1 * self.norms
 
             pos = np.zeros(self.dim) if pos is None else np.array(pos, dtype=np.float64)
             pos -= tol
@@ -1035,6 +1035,9 @@ class LatticeStructure(LatticeBasis):
          [2 2]]
         """
         # Build lattice indices
+        if primitive and not isinstance(shape, AbstractShape):
+            shape = Shape(shape, pos, basis=self.vectors)
+        region = shape
         if isinstance(shape, AbstractShape):
             pos, stop = shape.limits().T
             shape = stop - pos
@@ -1046,14 +1049,16 @@ class LatticeStructure(LatticeBasis):
             )
         logger.debug("Building nvecs: %s at %s", shape, pos)
 
-        if primitive:
-            shape = np.array(shape) * np.max(self.vectors, axis=0) - 0.1 * self.norms
         if pos is None:
             pos = np.zeros(self.dim)
-        end = pos + shape
+        # Use the tolerance of the check. For boxes in lattice coordinates the
+        # cells starting at the upper limits are not needed.
+        cells = primitive and getattr(region, "basis", None) is not None
+        start = np.subtract(pos, 1e-3)
+        end = pos + shape + (-1e-3 * self.norms if cells else 1e-3)
 
         # Estimate the maximum needed translation vector to reach all points and atoms
-        corners = np.array(list(itertools.product(*zip(pos, end))))
+        corners = np.array(list(itertools.product(*zip(start, end))))
         offsets = np.array([np.zeros(self.dim), *self._positions])
         index = self.itranslate(corners[:, np.newaxis] - offsets)[0]
         index = index.reshape(-1, self.dim)
@@ -1073,7 +1078,7 @@ class LatticeStructure(LatticeBasis):
             logger.debug("Filtering nvec's")
             # Filter points in the given volume
             positions = np.dot(nvecs, self.vectors[np.newaxis, :, :])[:, 0, :]
-            mask = self.check_points(positions, shape, primitive, pos)
+            mask = self.check_points(positions, region, pos=pos)
             nvecs = nvecs[mask]
         return nvecs
 
@@ -1164,6 +1169,8 @@ class LatticeStructure(LatticeBasis):
         logger.debug("Building lattice-indices: %s at %s", shape, pos)
 
         # Build lattice indices
+        if primitive and not isinstance(shape, AbstractShape):
+            shape = Shape(shape, pos, basis=self.vectors)
         nvecs = self.build_translation_vectors(shape, primitive, pos, False, dtype)
         ones = np.ones(nvecs.shape[0], dtype=nvecs.dtype)
         arrays = [np.c_[nvecs, i * ones] for i in range(self.num_base)]
-- 
2.43.0


From a5ef4fd41141682ad1d90442874cf19e9f7c05eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:56 +0000
Subject: [PATCH 08/52] fix: index grids wider than the type of their limits
 overflowed

---
 lattpy/spatial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index da3f52e..98726fa 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -137,10 +137,11 @@ def vindices(
     -------
     vectors: (N, D) np.ndarray
     """
-    if dtype is None:
-        dtype = min_dtype(limits, signed=True)
     limits = np.asarray(limits)
     dim = limits.shape[0]
+    if dtype is None:
+        # The indices are shifted after creating the grid of the given size
+        dtype = min_dtype(np.append(limits, limits[:, 1] - limits[:, 0]), signed=True)
 
     # Create meshgrid reshape grid to array of indices
 
-- 
2.43.0


From e9c305a900de52f65f4d996b506e84823720d986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:05 +0000
Subject: [PATCH 09/52] fix: failed builds dropped the built lattice, rebuilds
 kept the periodic axes

---
 lattpy/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index e6f2930..82448a6 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -445,7 +445,6 @@ class Lattice(LatticeStructure):
         NotAnalyzedError
             Raised if the lattice distances and base-neighbors haven't been computed.
         """
-        self.data.reset()
         if not isinstance(shape, AbstractShape):
             basis = self.vectors if primitive else None
             shape = Shape(shape, pos=pos, basis=basis)
@@ -472,6 +471,7 @@ class Lattice(LatticeStructure):
         # Set data of the lattice and update shape
         self.data.set(indices, positions, neighbors, distances_)
         self.primitive = primitive
+        self.periodic_axes = list()
         self._update_shape()
 
         if periodic is not None:
-- 
2.43.0


From ebefe5a152231b04746b17b132688375a408a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:34 +0000
Subject: [PATCH 10/52] fix: the data map was not updated after changes of the
 lattice data

---
 lattpy/data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 4d5651d..1a0d37e 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -350,6 +350,7 @@ class LatticeData:
         self.neighbors = neighbors
         self.distances = distances
         self.invalid_idx = num_sites
+        self._dmap = None
 
     def get_limits(self) -> np.ndarray:
         """Computes the geometric limits of the positions of the stored sites.
@@ -480,6 +481,8 @@ class LatticeData:
         self.pnvecs = self.pnvecs[indices]
         self.pmask = self.pmask[indices]
 
+        self._dmap = None
+
         # Translate neighbor indices
         old_neighbors = self.neighbors.copy()
         for new, old in enumerate(indices):
@@ -487,6 +490,7 @@ class LatticeData:
             self.neighbors[mask] = new
 
     def remove_periodic(self):
+        self._dmap = None
         mask = self.pmask
         self.neighbors[mask] = self.invalid_idx
         self.distances[mask] = self.invalid_distidx
@@ -503,6 +507,7 @@ class LatticeData:
         self.paxes = self.paxes[i, j]
         self.pnvecs = self.pnvecs[i, j]
         self.pmask = self.pmask[i, j]
+        self._dmap = None
 
     def add_neighbors(self, site, neighbors, distances):
         neighbors = np.atleast_2d(neighbors)
@@ -515,6 +520,7 @@ class LatticeData:
         # Add new neighbor data to unused slots
         self.neighbors[site, i0:i1] = neighbors
         self.distances[site, i0:i1] = distidx
+        self._dmap = None
 
     def append(self, *args, copy=False):
         neighbors1 = self.neighbors.copy()
-- 
2.43.0


From f9560b5f838f0e3bc4fae08a1203199565f27086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:44 +0000
Subject: [PATCH 11/52] fix: removing sites left the periodic data of the
 removed sites

---
 lattpy/data.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 1a0d37e..801b2b5 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -331,12 +331,18 @@ class LatticeData:
         positions = np.delete(self.positions, sites, axis=0)
         neighbors = np.delete(self.neighbors, sites, axis=0)
         distances = np.delete(self.distances, sites, axis=0)
+        paxes = np.delete(self.paxes, sites, axis=0)
+        pnvecs = np.delete(self.pnvecs, sites, axis=0)
+        pmask = np.delete(self.pmask, sites, axis=0)
 
         # Update neighbor indices and distances:
         # For each removed site below the neighbor index has to be decremented once
         mask = np.isin(neighbors, sites)
         neighbors[mask] = invalid_idx
         distances[mask] = invalid_distidx
+        paxes[mask] = self.dim
+        pnvecs[mask] = 0
+        pmask[mask] = False
         for count, i in enumerate(sorted(sites)):
             neighbors[neighbors > (i - count)] -= 1
 
@@ -349,6 +355,9 @@ class LatticeData:
         self.positions = positions
         self.neighbors = neighbors
         self.distances = distances
+        self.paxes = paxes
+        self.pnvecs = pnvecs
+        self.pmask = pmask
         self.invalid_idx = num_sites
         self._dmap = None
 
-- 
2.43.0


From 495ac7d45748e0f8d109d6a4e340ce0c3ba28d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:32 +0000
Subject: [PATCH 12/52] fix: removing sites with repeated or negative indices
 corrupted the neighbors

---
 lattpy/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 801b2b5..0572b59 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -320,7 +320,8 @@ class LatticeData:
         self._dmap = None
 
     def remove(self, sites):
-        sites = np.atleast_1d(sites)
+        # Convert to unique non-negative indices
+        sites = np.unique(np.arange(self.num_sites)[np.atleast_1d(sites)])
 
         # store current invalid index
         invalid_idx = self.invalid_idx
-- 
2.43.0


From 051d6fda33a8fd8a5de0dd7baa96463aebb7acc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:44 +0000
Subject: [PATCH 13/52] fix: added neighbors overwrote valid ones of sites with
 unused slots in between

---
 lattpy/data.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 0572b59..2e5d93e 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -443,6 +443,21 @@ class LatticeData:
             mask &= self.pmask[site] if periodic else ~self.pmask[site]
         return mask
 
+    def _free_slots(self, site, num):
+        """Returns unused slots of a site, the data is padded if there are too few."""
+        slots = np.where(self.distances[site] == self.invalid_distidx)[0]
+        missing = num - len(slots)
+        if missing > 0:
+            slots = np.append(slots, self.neighbors.shape[1] + np.arange(missing))
+            width = [(0, 0), (0, missing), (0, 0)]
+            ind, dist, dim = self.invalid_idx, self.invalid_distidx, self.dim
+            self.neighbors = np.pad(self.neighbors, width[:2], constant_values=ind)
+            self.distances = np.pad(self.distances, width[:2], constant_values=dist)
+            self.pmask = np.pad(self.pmask, width[:2])
+            self.pnvecs = np.pad(self.pnvecs, width)
+            self.paxes = np.pad(self.paxes, width, constant_values=dim)
+        return slots[:num]
+
     def set_periodic(
         self, indices: dict, distances: dict, nvecs: dict, axes: dict
     ) -> None:
@@ -465,17 +480,16 @@ class LatticeData:
         # Set new periodic neighbors
         for i, pidx in indices.items():
             # compute invalid slots of normal data
-            i0 = len(self.get_neighbors(i, periodic=False))
-            i1 = i0 + len(pidx)
+            slots = self._free_slots(i, len(pidx))
             # translate distances to indices
             dists = distances[i]
             distidx = [np.searchsorted(self.distvals, d) for d in dists]
             # add periodic data
-            self.neighbors[i, i0:i1] = pidx
-            self.distances[i, i0:i1] = distidx
-            self.paxes[i, i0:i1, : axes[i].shape[1]] = axes[i]
-            self.pnvecs[i, i0:i1] = nvecs[i]
-            self.pmask[i, i0:i1] = 1
+            self.neighbors[i, slots] = pidx
+            self.distances[i, slots] = distidx
+            self.paxes[i, slots, : axes[i].shape[1]] = axes[i]
+            self.pnvecs[i, slots] = nvecs[i]
+            self.pmask[i, slots] = 1
 
     def sort(self, ax=None, indices=None, reverse=False):
         if ax is not None:
@@ -520,16 +534,15 @@ class LatticeData:
         self._dmap = None
 
     def add_neighbors(self, site, neighbors, distances):
-        neighbors = np.atleast_2d(neighbors)
-        distances = np.atleast_2d(distances)
+        neighbors = np.atleast_1d(neighbors)
+        distances = np.atleast_1d(distances)
         # compute invalid slots of normal data
-        i0 = len(self.distances[site, self.distances[site] != self.invalid_distidx])
-        i1 = i0 + len(neighbors)
+        slots = self._free_slots(site, len(neighbors))
         # Translate distances to indices
         distidx = np.asarray([np.searchsorted(self.distvals, d) for d in distances])
         # Add new neighbor data to unused slots
-        self.neighbors[site, i0:i1] = neighbors
-        self.distances[site, i0:i1] = distidx
+        self.neighbors[site, slots] = neighbors
+        self.distances[site, slots] = distidx
         self._dmap = None
 
     def append(self, *args, copy=False):
-- 
2.43.0


From c7f23ccc461f753d5dcbecd50d92aef9934148ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:12 +0000
Subject: [PATCH 14/52] fix: data without unused slots lost its most distant
 neighbors

---
 lattpy/data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lattpy/data.py b/lattpy/data.py
index 2e5d93e..c5f82be 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -304,6 +304,11 @@ class LatticeData:
             The distances of the neighbors.
         """
         logger.debug("Setting data")
+        if np.all(np.isfinite(distances)):
+            # Pad data so that the last distance index always marks unused slots
+            shape = len(indices), 1
+            neighbors = np.append(neighbors, np.full(shape, len(indices)), axis=1)
+            distances = np.append(distances, np.full(shape, np.inf), axis=1)
         distvals, distidx = create_lookup_table(distances)
 
         self.indices = indices
-- 
2.43.0


From 7f299879c9040885cc70973a1b9dcfad17ebd566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:21 +0000
Subject: [PATCH 15/52] fix: check_neighbors missed neighbors with larger
 distances

---
 lattpy/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 82448a6..f04a346 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -383,8 +383,8 @@ class Lattice(LatticeStructure):
         distidx : int or None
             The distance index of the two sites if they are neighbors.
         """
-        for distidx in range(self.num_distances):
-            if idx1 in self.neighbors(idx0, distidx):
+        for distidx, neighbors in self.iter_neighbors(idx0):
+            if idx1 in neighbors:
                 return distidx
         return None
 
-- 
2.43.0


From e7e80b5c51f9b67bf29389e6272a9a966ebdc22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:30 +0000
Subject: [PATCH 16/52] fix: adjacency matrix was too small if the last sites
 had no neighbors

---
 lattpy/lattice.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index f04a346..5734a26 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1086,7 +1086,8 @@ class Lattice(LatticeStructure):
         pairs, distindices = self.neighbor_pairs(unique=False)
         rows, cols = pairs.T  # noqa
         data = distindices + 1
-        return csr_matrix((data, (rows, cols)), dtype=np.int8)
+        shape = self.num_sites, self.num_sites
+        return csr_matrix((data, (rows, cols)), shape=shape, dtype=np.int8)
 
     # ==================================================================================
 
-- 
2.43.0


From a27e68a8324f725a9023df86dadd9c41adc574b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:39 +0000
Subject: [PATCH 17/52] fix: is_reciprocal ignored the products of different
 vectors

---
 lattpy/basis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 158ee6a..68c976a 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -383,9 +383,10 @@ class LatticeBasis:
         """
         vecs = np.atleast_2d(vecs)
         two_pi = 2 * np.pi
-        for a, b in zip(self.vectors, vecs):
-            if abs(np.dot(a, b) - two_pi) > tol:
-                return False
+        for i, a in enumerate(self.vectors):
+            for j, b in enumerate(vecs):
+                if abs(np.dot(a, b) - two_pi * (i == j)) > tol:
+                    return False
         return True
 
     def reciprocal_vectors(
-- 
2.43.0


From b1232cb5e47a321ef1c9ca3377716bc67c1406af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:48 +0000
Subject: [PATCH 18/52] fix: lattices shared their basis and connections with
 the objects they were created from

---
 lattpy/basis.py     | 2 +-
 lattpy/structure.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 68c976a..5c38ff1 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -92,7 +92,7 @@ class LatticeBasis:
         if isinstance(basis, LatticeBasis):
             basis = basis.vectors
         # Vector basis
-        self._vectors = np.atleast_2d(basis).T
+        self._vectors = np.array(np.atleast_2d(basis)).T
         self._vectors_inv = np.linalg.inv(self._vectors)
         self._dim = len(self._vectors)
         self._cell_size = cell_size(self.vectors)
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 3886065..a17e496 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1367,7 +1367,7 @@ class LatticeStructure(LatticeBasis):
         self = cls(d["vectors"])
         for pos, at in zip(d["positions"], d["atoms"]):
             self.add_atom(pos, at)
-        self._connections = d["connections"]
+        self._connections = np.array(d["connections"])
         self.analyze()
         return self
 
-- 
2.43.0


From 7c60e4918c21393d95e1696b939ee75f729c1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:57 +0000
Subject: [PATCH 19/52] fix: general rotation used the z-rotation for the
 x-axis

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 98726fa..1409bfd 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -559,7 +559,7 @@ def rot(
     if thetay:
         r = np.dot(r, ry(thetay))
     if thetax:
-        r = np.dot(r, rz(thetax))
+        r = np.dot(r, rx(thetax))
     return r
 
 
-- 
2.43.0


From 9419466512c444affea4a7c6c12ebc60e595d852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:54 +0000
Subject: [PATCH 20/52] fix: analysis missed neighbors in far cells of skewed
 and anisotropic bases

---
 lattpy/structure.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index a17e496..b87a90e 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -450,17 +450,30 @@ class LatticeStructure(LatticeBasis):
         if analyze:
             self.analyze()
 
+    def _max_atom_distance(self):
+        """Returns the maximal distance between two atoms of the unit cell."""
+        positions = np.asarray(self._positions)
+        return np.max(np.linalg.norm(positions[:, None] - positions[None], axis=-1))
+
+    def _get_cells_in_range(self, max_dist):
+        """Returns the indices of all cells with a distance up to `max_dist`."""
+        limits = max_dist * np.linalg.norm(np.linalg.inv(self.vectors), axis=0)
+        ranges = [np.arange(-n, n + 1) for n in np.floor(limits).astype(np.int64)]
+        nvecs = np.array(list(itertools.product(*ranges)))
+        return nvecs[np.linalg.norm(nvecs @ self.vectors, axis=1) <= max_dist]
+
     def _compute_base_neighbors(self, max_distidx, num_jobs=1):
         logger.debug("Building indices of neighbor-cells")
 
         # Build indices of neighbor-cells
         self._positions = np.asarray(self._positions)
-        cell_range = 2 * max_distidx
-        logger.debug("Max. distidx: %i, Cell-range: %i", max_distidx, cell_range)
+        # Steps along the shortest vector are an upper bound of the distances
+        atom_dist = self._max_atom_distance()
+        step = np.min(np.linalg.norm(self.vectors, axis=1))
+        max_dist = 2 * atom_dist + max_distidx * step
+        logger.debug("Max. distidx: %i, Max. dist: %f", max_distidx, max_dist)
 
-        nvecs = self.get_neighbor_cells(
-            cell_range, include_origin=True, comparison=np.less_equal
-        )
+        nvecs = self._get_cells_in_range(1.01 * max_dist)
         arrays = [
             np.c_[nvecs, i * np.ones(nvecs.shape[0])] for i in range(self.num_base)
         ]
-- 
2.43.0


From 78a17d8e9480b762c399da0a8d37d69d31852ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:20 +0000
Subject: [PATCH 21/52] fix: neighbor search dropped neighbors if many closer
 sites are not connected

---
 lattpy/lattice.py   |  9 +++------
 lattpy/structure.py | 12 ++++++++++--
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 5734a26..440a548 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -561,8 +561,7 @@ class Lattice(LatticeStructure):
     def kdtree(self, positions=None, eps=0.0, boxsize=None):
         if positions is None:
             positions = self.data.positions
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
-        max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        k, max_dist = self._neighbor_query_args()
         return KDTree(positions, k, max_dist, eps=eps, boxsize=boxsize)
 
     def _compute_pneighbors(
@@ -576,8 +575,7 @@ class Lattice(LatticeStructure):
         invald_idx = len(indices)
 
         # Build tree
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
-        max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        k, max_dist = self._neighbor_query_args()
         tree = KDTree(positions, k, max_dist)
 
         # Initialize arrays
@@ -702,8 +700,7 @@ class Lattice(LatticeStructure):
 
     def _compute_connection_neighbors(self, positions1, positions2):
         # Set neighbor query parameters
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
-        max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        k, max_dist = self._neighbor_query_args()
 
         # Build sub-lattice tree's
         tree1 = KDTree(positions1, k=k, max_dist=max_dist)
diff --git a/lattpy/structure.py b/lattpy/structure.py
index b87a90e..5b96d32 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1213,6 +1213,15 @@ class LatticeStructure(LatticeBasis):
         logger.debug("Created %i lattice sites", len(indices))
         return indices, positions if return_pos else None
 
+    def _neighbor_query_args(self):
+        """Returns the number of sites `k` in the maximal neighbor distance."""
+        max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        nvecs = self._get_cells_in_range(max_dist + self._max_atom_distance())
+        positions = [self.translate(nvecs, pos) for pos in self.atom_positions]
+        tree = KDTree(np.concatenate(positions))
+        points = tree.query_ball_point(self.atom_positions, 1.01 * max_dist)
+        return max(len(inds) for inds in points) + 1, max_dist
+
     def _filter_neighbors(self, indices, neighbors, distances, x_ind=None):
         logger.debug("Filtering neighbors")
 
@@ -1331,8 +1340,7 @@ class LatticeStructure(LatticeBasis):
         logger.debug("Querying neighbors of %i points", len(positions))
 
         # Set neighbor query parameters and build tree
-        k = np.sum(np.sum(self._raw_num_neighbors, axis=1)) + 1
-        max_dist = np.max(self.distances) + 0.1 * np.min(self._raw_distance_matrix)
+        k, max_dist = self._neighbor_query_args()
         tree = KDTree(positions, k=k, max_dist=max_dist)
         logger.debug("Max. number of neighbors: %i", k)
         logger.debug("Max. neighbor distance:   %f", max_dist)
-- 
2.43.0


From 9f1ea5ce0595cbcde3bb02dee4d7ba2aa8fef5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:49 +0000
Subject: [PATCH 22/52] fix: periodic translation vectors missed combinations
 of axes

---
 lattpy/lattice.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 440a548..162955b 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -536,15 +536,17 @@ class Lattice(LatticeStructure):
         if isinstance(axes, int) or len(axes) == 1:
             return [(axes, self._build_periodic_translation_vector(axes, primitive))]
         # Add all combinations of the periodic axis
+        axes = list(dict.fromkeys(axes))
+        vecs = [self._build_periodic_translation_vector(ax, primitive) for ax in axes]
         items = list()
-        for ax in itertools.combinations_with_replacement(axes, r=2):
-            nvec = self._build_periodic_translation_vector(ax, primitive)
-            items.append((ax, nvec))
-            # Use +/- for every axis exept the first one to ensure all corners are hit
-            if not np.all(np.array(ax) == axes[0]):
-                nvec2 = np.copy(nvec)
-                nvec2[1:] *= -1
-                items.append((ax, nvec2))
+        for signs in itertools.product([0, 1, -1], repeat=len(axes)):
+            used = [i for i, sign in enumerate(signs) if sign]
+            # Skip the origin and the inverse of other combinations
+            if used and signs[used[0]] > 0:
+                ax = [axes[i] for i in used]
+                ax = tuple(ax + [ax[-1]] * (len(axes) - len(ax)))
+                nvec = np.sum([sign * vec for sign, vec in zip(signs, vecs)], axis=0)
+                items.append((ax, nvec))
         return items
 
     def _build_periodic(self, indices, positions, nvec, out_ind=None, out_pos=None):
-- 
2.43.0


From 2128bb7c0ccefadda3a8a684cafa892582c131ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:59 +0000
Subject: [PATCH 23/52] fix: distances of periodic neighbors were mixed up in
 small lattices

---
 lattpy/lattice.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 162955b..505dbc6 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -618,18 +618,19 @@ class Lattice(LatticeStructure):
 
         # Convert values of dict to np.ndarray's
         for k in list(pidx.keys()):
-            pi = list(pidx[k])  # indices of periodic neighbors
+            pi = np.array(pidx[k])  # indices of periodic neighbors
+            # Use the shortest distance if there are multiple paths to a site
+            order = np.argsort(pdists[k], kind="stable")
             # Check if periodic neighbors is in regular neighbors
             # This occurs for small lattices and makes no sense, since the
             # sites are already neighbors
             existing_neighbors = self.neighbors(k)
-            for _i, ind in enumerate(pi[:]):
-                if ind in existing_neighbors:
-                    pi.remove(ind)
+            order = order[~np.isin(pi[order], existing_neighbors)]
 
-            if len(pi):
+            if len(order):
                 # Convert to arrays
-                sites, ind = np.unique(pi, return_index=True)
+                sites, ind = np.unique(pi[order], return_index=True)
+                ind = order[ind]
                 pidx[k] = np.array(sites)
                 pdists[k] = np.array(pdists[k])[ind]
                 paxs[k] = np.array(paxs[k])[ind]
-- 
2.43.0


From d9946f93ecd1832c29c92029d0ec630b22540309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:08 +0000
Subject: [PATCH 24/52] fix: periodic axes were not updated without periodic
 neighbors

---
 lattpy/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 505dbc6..77ce561 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -696,10 +696,10 @@ class Lattice(LatticeStructure):
             self.data.remove_periodic()
             axis = np.atleast_1d(axis)
             pidx, pdists, pnvecs, paxs = self._compute_pneighbors(axis, primitive)
+            self.periodic_axes = axis
             if not pidx:
                 return
             self.data.set_periodic(pidx, pdists, pnvecs, paxs)
-            self.periodic_axes = axis
 
     def _compute_connection_neighbors(self, positions1, positions2):
         # Set neighbor query parameters
-- 
2.43.0


From a6b2e0bf198ada84ddeeb8295e6e1823c639ad55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:11 +0000
Subject: [PATCH 25/52] fix: appended lattices had lost, added or mislabelled
 neighbors

---
 lattpy/lattice.py | 44 +++++++++++++-------------------------------
 1 file changed, 13 insertions(+), 31 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 77ce561..f335e81 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -797,18 +797,15 @@ class Lattice(LatticeStructure):
         self,
         ind,
         pos,
-        neighbors,
-        dists,
         ax=0,
         side=+1,
         sort_axis=None,
         sort_reverse=False,
         primitive=False,
+        num_jobs=1,
     ):
-        indices2 = np.copy(ind)
+        indices2 = np.array(ind, dtype=np.int64)
         positions2 = np.copy(pos)
-        neighbors2 = np.copy(neighbors)
-        distances2 = np.copy(dists)
         # Build translation vector
         indices = self.data.indices if side > 0 else indices2
         nvec = self._build_periodic_translation_vector(ax, primitive, indices)
@@ -816,20 +813,16 @@ class Lattice(LatticeStructure):
             nvec = -1 * nvec
         vec = self.translate(nvec)
 
-        # Store temporary data
-        positions1 = self.data.positions
-
         # Shift data of appended lattice
         indices2[:, :-1] += nvec
-        positions2 += vec
+        positions2 = positions2 + vec
 
-        # Append data and compute connecting neighbors
-        self.data.append(indices2, positions2, neighbors2, distances2)
-        pairs, distances_ = self._compute_connection_neighbors(positions1, positions2)
-        offset = len(positions1)
-        for (i, j), dist in zip(pairs, distances_):
-            self.data.add_neighbors(i, j + offset, dist)
-            self.data.add_neighbors(j + offset, i, dist)
+        # Join data and compute the neighbors of all sites
+        indices = np.append(self.data.indices, indices2, axis=0)
+        positions = np.append(self.data.positions, positions2, axis=0)
+        neighbors, distances_ = self.compute_neighbors(indices, positions, num_jobs)
+        self.data.set(indices, positions, neighbors, distances_)
+        self.periodic_axes = list()
 
         if sort_axis is not None:
             self.data.sort(sort_axis, reverse=sort_reverse)
@@ -896,11 +889,7 @@ class Lattice(LatticeStructure):
 
         ind = latt.data.indices
         pos = latt.data.positions
-        neighbors = latt.data.neighbors
-        dists = latt.data.distvals[latt.data.distances]
-        self._append(
-            ind, pos, neighbors, dists, ax, side, sort_ax, sort_reverse, self.primitive
-        )
+        self._append(ind, pos, ax, side, sort_ax, sort_reverse, self.primitive)
 
     def extend(self, size, ax=0, side=1, num_jobs=1, sort_ax=None, sort_reverse=False):
         """Extend the lattice along an axis.
@@ -942,12 +931,9 @@ class Lattice(LatticeStructure):
         shape = np.copy(self.shape)
         shape[ax] = size
         ind, pos = self.build_indices(shape, primitive=self.primitive, return_pos=True)
-        # Compute the neighbors and distances between the sites of new section
-        neighbors, dists = self.compute_neighbors(ind, pos, num_jobs)
         # Append new section
-        self._append(
-            ind, pos, neighbors, dists, ax, side, sort_ax, sort_reverse, self.primitive
-        )
+        prim = self.primitive
+        self._append(ind, pos, ax, side, sort_ax, sort_reverse, prim, num_jobs)
 
     def repeat(self, num=1, ax=0, side=1, sort_ax=None, sort_reverse=False):
         """Repeat the lattice along an axis.
@@ -987,13 +973,9 @@ class Lattice(LatticeStructure):
         """
         ind = self.data.indices
         pos = self.data.positions
-        neighbors = self.data.neighbors
-        dists = self.data.distvals[self.data.distances]
         prim = self.primitive
         for _ in range(num):
-            self._append(
-                ind, pos, neighbors, dists, ax, side, sort_ax, sort_reverse, prim
-            )
+            self._append(ind, pos, ax, side, sort_ax, sort_reverse, prim)
 
     def dmap(self) -> DataMap:
         """DataMap : Returns the data-map of the lattice model."""
-- 
2.43.0


From 08d0d16b78490163cad3e4254fd18ebe03055df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:19 +0000
Subject: [PATCH 26/52] fix: extended sections were built at the origin and in
 the wrong coordinates

---
 lattpy/lattice.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index f335e81..f1aab15 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -928,8 +928,17 @@ class Lattice(LatticeStructure):
         [8. 5.]
         """
         # Build indices and positions of new section
-        shape = np.copy(self.shape)
-        shape[ax] = size
+        if self.primitive:
+            points = self.itransform(self.positions)
+            start = np.min(points, axis=0)
+            # Pad the box to include the cells at the upper limits
+            shape = np.max(points, axis=0) - start + 2e-3
+            shape[ax] = size
+            shape = Shape(shape, start, basis=self.vectors)
+        else:
+            shape = np.array(self.shape, dtype=np.float64)
+            shape[ax] = size
+            shape = Shape(shape, self.pos)
         ind, pos = self.build_indices(shape, primitive=self.primitive, return_pos=True)
         # Append new section
         prim = self.primitive
-- 
2.43.0


From 561baa01cd7fe3648282ab96c9ac91153b3e1f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:26 +0000
Subject: [PATCH 27/52] fix: repeating multiple times to the lower side stacked
 the copies

---
 lattpy/lattice.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index f1aab15..92feaf3 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -829,6 +829,7 @@ class Lattice(LatticeStructure):
 
         # Update the shape of the lattice
         self._update_shape()
+        return nvec
 
     # noinspection PyShadowingNames
     def append(
@@ -984,7 +985,11 @@ class Lattice(LatticeStructure):
         pos = self.data.positions
         prim = self.primitive
         for _ in range(num):
-            self._append(ind, pos, ax, side, sort_ax, sort_reverse, prim)
+            nvec = self._append(ind, pos, ax, side, sort_ax, sort_reverse, prim)
+            if side <= 0:
+                # Place the next copy next to the last one
+                ind = ind + np.append(nvec, 0)
+                pos = self.translate(nvec, pos)
 
     def dmap(self) -> DataMap:
         """DataMap : Returns the data-map of the lattice model."""
-- 
2.43.0


From 7c737cd87bc5bbc2b25347d1e1ebf2452aaafb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:09 +0000
Subject: [PATCH 28/52] fix: appending lattice data kept periodic neighbors and
 modified its arguments

---
 lattpy/data.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index c5f82be..994eb0a 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -15,7 +15,7 @@ from copy import deepcopy
 from typing import Union, Sequence
 import numpy as np
 from scipy.sparse import csr_matrix, bsr_matrix
-from .utils import create_lookup_table, min_dtype
+from .utils import create_lookup_table
 
 __all__ = ["DataMap", "LatticeData"]
 
@@ -551,29 +551,26 @@ class LatticeData:
         self._dmap = None
 
     def append(self, *args, copy=False):
-        neighbors1 = self.neighbors.copy()
-        distances1 = self.distvals[self.distances]
+        # Use data without periodic neighbors
+        neighbors1 = np.where(self.pmask, self.invalid_idx, self.neighbors)
+        distances1 = np.where(self.pmask, np.inf, self.distvals[self.distances])
         if len(args) == 1 and isinstance(args[0], LatticeData):
             data = args[0]
             indices2 = data.indices
             positions2 = data.positions
-            neighbors2 = data.neighbors
-            distances2 = data.distvals[data.distances]
+            neighbors2 = np.where(data.pmask, data.invalid_idx, data.neighbors)
+            distances2 = np.where(data.pmask, np.inf, data.distvals[data.distances])
         else:
             indices2, positions2, neighbors2, distances2 = args
-
-        # Remove periodic neighbors
-        self.remove_periodic()
+            neighbors2 = np.array(neighbors2)
 
         # Convert invalid indices of neighbor data
         invalid_idx = self.num_sites + len(indices2)
+        neighbors1 = neighbors1.astype(np.int64)
+        neighbors2 = neighbors2.astype(np.int64)
         neighbors1[neighbors1 == self.invalid_idx] = invalid_idx
         neighbors2[neighbors2 == len(indices2)] = invalid_idx
 
-        # upgrade dtype if neccessary
-        dtype = min_dtype(np.max(neighbors2) + self.num_sites)
-        if dtype != neighbors2.dtype:
-            neighbors2 = neighbors2.astype(dtype)
         # Shift neighbor indices
         neighbors2[neighbors2 != invalid_idx] += self.num_sites
 
-- 
2.43.0


From 495253b6a63312935873678bc5024589c73e47fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:41 +0000
Subject: [PATCH 29/52] fix: lattices that are not built could not be compared

---
 lattpy/lattice.py   | 1 +
 lattpy/structure.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 92feaf3..b9e599d 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1114,6 +1114,7 @@ class Lattice(LatticeStructure):
         lines = list()
         for key, values in self.todict().items():
             head = key + ":"
+            values = list() if values is None else values
             lines.append(f"{head:<15}" + "; ".join(str(x) for x in values))
         return "\n".join(lines)
 
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 5b96d32..2a7eab1 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1403,6 +1403,7 @@ class LatticeStructure(LatticeBasis):
         lines = list()
         for key, values in self.todict().items():
             head = key + ":"
+            values = list() if values is None else values
             lines.append(f"{head:<15}" + "; ".join(str(x) for x in values))
         return "\n".join(lines)
 
-- 
2.43.0


From cef8e920dfc1af0a2e2d45843a9457b2e11db02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:49 +0000
Subject: [PATCH 30/52] fix: lattices restored from a dictionary shared their
 atoms with the original

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 2a7eab1..90a71de 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -1387,7 +1387,7 @@ class LatticeStructure(LatticeBasis):
         """
         self = cls(d["vectors"])
         for pos, at in zip(d["positions"], d["atoms"]):
-            self.add_atom(pos, at)
+            self.add_atom(np.copy(pos), deepcopy(at))
         self._connections = np.array(d["connections"])
         self.analyze()
         return self
-- 
2.43.0


From b38bb7a475fc8aa13869fb91ad7664edefe1cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:15 +0000
Subject: [PATCH 31/52] fix: changes of the position of an added atom or a
 lattice dictionary changed the lattice

---
 lattpy/lattice.py   | 2 +-
 lattpy/structure.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index b9e599d..3bac8c0 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -1100,7 +1100,7 @@ class Lattice(LatticeStructure):
             The information defining the current instance.
         """
         d = super().todict()
-        d["shape"] = self.shape
+        d["shape"] = deepcopy(self.shape)
         return d
 
     def dumps(self):  # pragma: no cover
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 90a71de..b2c5ed1 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -251,7 +251,7 @@ class LatticeStructure(LatticeBasis):
             atom = Atom(atom, **kwargs)
 
         self._atoms.append(atom)
-        self._positions = [*self._positions, np.asarray(pos)]
+        self._positions = [*self._positions, np.array(pos)]
 
         # Update number of base atoms if data is valid
         num_base = len(self._atoms)
@@ -1369,7 +1369,7 @@ class LatticeStructure(LatticeBasis):
         d["atoms"] = self._atoms
         d["positions"] = self._positions
         d["connections"] = self._connections
-        return d
+        return deepcopy(d)
 
     @classmethod
     def fromdict(cls, d):
-- 
2.43.0


From da9c29faafc4536db31e8a65da680d74a60751fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:05 +0000
Subject: [PATCH 32/52] fix: Wigner-Seitz cells used only the nearest neighbor
 cells

---
 lattpy/basis.py     | 21 ++++++++++++++++++++-
 lattpy/spatial.py   | 11 +++++++++++
 lattpy/structure.py |  7 -------
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 5c38ff1..3a85d24 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -542,6 +542,13 @@ class LatticeBasis:
             factors = np.delete(factors, idx, axis=0)
         return factors
 
+    def _get_cells_in_range(self, max_dist):
+        """Returns the indices of all cells with a distance up to `max_dist`."""
+        limits = max_dist * np.linalg.norm(np.linalg.inv(self.vectors), axis=0)
+        ranges = [np.arange(-n, n + 1) for n in np.floor(limits).astype(np.int64)]
+        nvecs = np.array(list(itertools.product(*ranges)))
+        return nvecs[np.linalg.norm(nvecs @ self.vectors, axis=1) <= max_dist]
+
     def wigner_seitz_cell(self) -> WignerSeitzCell:
         """Computes the Wigner-Seitz cell of the lattice structure.
 
@@ -550,7 +557,19 @@ class LatticeBasis:
         ws_cell : WignerSeitzCell
             The Wigner-Seitz cell of the lattice.
         """
-        nvecs = self.get_neighbor_cells(include_origin=True)
+        # Each face of the cell belongs to a pair of vectors +/-v for which v/2 is
+        # nearest to the origin and v only, so that these are the only shortest
+        # vectors of all those that differ from v by two times a lattice vector
+        nvecs = self._get_cells_in_range(1.01 * np.sum(self.norms))
+        lengths = np.linalg.norm(nvecs @ self.vectors, axis=1)
+        parities, inverse = np.unique(nvecs % 2, axis=0, return_inverse=True)
+        relevant = list()
+        for i in np.where(np.any(parities, axis=1))[0]:
+            idx = np.where(np.ravel(inverse) == i)[0]
+            idx = idx[np.isclose(lengths[idx], np.min(lengths[idx]))]
+            if len(idx) == 2:
+                relevant.extend(idx)
+        nvecs = np.append(np.zeros((1, self.dim)), nvecs[np.sort(relevant)], axis=0)
         positions = np.dot(nvecs, self.vectors[np.newaxis, :, :])[:, 0, :]
         return WignerSeitzCell(positions)
 
diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 1409bfd..b06f4ed 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -374,6 +374,7 @@ class VoronoiTree:
         points = np.asarray(points)
         dim = points.shape[1]
         edges = list()
+        ridges = list()
         if dim == 1:
             vertices = points / 2
             idx = np.where((vertices == np.zeros(vertices.shape[1])).all(axis=1))[0]
@@ -387,10 +388,12 @@ class VoronoiTree:
                 simplex = np.asarray(simplex)
                 if np.all(simplex >= 0):
                     edges.append(simplex)
+                    ridges.append(pointidx)
 
         self.dim = dim
         self.points = points
         self.edges = edges
+        self.ridges = ridges
         self.vertices = vertices
         self.tree = scipy.spatial.KDTree(points)
         self.origin = self.query(np.zeros(dim))
@@ -455,6 +458,14 @@ class WignerSeitzCell(VoronoiTree):
     def __init__(self, points):
         super().__init__(points)
         self._root = self.query(np.zeros(self.dim))[1]
+        if self.dim > 1:
+            # Keep only the faces and vertices of the cell around the origin
+            idx = [i for i, points in enumerate(self.ridges) if self._root in points]
+            edges = [self.edges[i] for i in idx]
+            used = np.unique(np.concatenate(edges))
+            self.ridges = [self.ridges[i] for i in idx]
+            self.edges = [np.searchsorted(used, edge) for edge in edges]
+            self.vertices = self.vertices[used]
 
     @property
     def limits(self):
diff --git a/lattpy/structure.py b/lattpy/structure.py
index b2c5ed1..b8cc4a1 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -455,13 +455,6 @@ class LatticeStructure(LatticeBasis):
         positions = np.asarray(self._positions)
         return np.max(np.linalg.norm(positions[:, None] - positions[None], axis=-1))
 
-    def _get_cells_in_range(self, max_dist):
-        """Returns the indices of all cells with a distance up to `max_dist`."""
-        limits = max_dist * np.linalg.norm(np.linalg.inv(self.vectors), axis=0)
-        ranges = [np.arange(-n, n + 1) for n in np.floor(limits).astype(np.int64)]
-        nvecs = np.array(list(itertools.product(*ranges)))
-        return nvecs[np.linalg.norm(nvecs @ self.vectors, axis=1) <= max_dist]
-
     def _compute_base_neighbors(self, max_distidx, num_jobs=1):
         logger.debug("Building indices of neighbor-cells")
 
-- 
2.43.0


From 5a754f0b9fa616593afdfd37e43107cec8322406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:14 +0000
Subject: [PATCH 33/52] fix: size of the Wigner-Seitz cell mixed up its axes

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index b06f4ed..487cb51 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -475,7 +475,7 @@ class WignerSeitzCell(VoronoiTree):
 
     @property
     def size(self):
-        return self.limits[1] - self.limits[0]
+        return self.limits[:, 1] - self.limits[:, 0]
 
     def check(self, points):
         cells = np.asarray(self.query(points)[1])
-- 
2.43.0


From caaeb2a86e0d0d08a582fda8a9c5c69d31a7cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:59 +0000
Subject: [PATCH 34/52] fix: cell size of vectors with only negative components
 was too small

---
 lattpy/spatial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 487cb51..98d9fad 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -237,6 +237,7 @@ def cell_size(vectors: ArrayLike) -> np.ndarray:
     """
     max_values = np.max(vectors, axis=0)
     min_values = np.min(vectors, axis=0)
+    max_values[max_values < 0] = 0
     min_values[min_values > 0] = 0
     return max_values - min_values
 
-- 
2.43.0


From 75488016befecfc4eb1f17b5be7be7c4879b2451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:55 +0000
Subject: [PATCH 35/52] fix: minimum data type overflowed for values at the
 limits of their own type

---
 lattpy/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index 5360ed1..d88c021 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -158,10 +158,11 @@ def min_dtype(
     dtype : dtype
         The required dtype.
     """
+    # Use Python numbers to prevent an overflow of the given type
+    amin, amax = np.min(a).item(), np.max(a).item()
     if signed:
-        a = -np.max(np.abs(a)) - 1
+        a = -max(abs(amin), abs(amax)) - 1
     else:
-        amin, amax = np.min(a), np.max(a)
         if amin < 0:
             a = -amax - 1 if abs(amin) <= amax else amin
         else:
-- 
2.43.0


From 02988173766d583f01d35e2bf47083fb87a79d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:15 +0000
Subject: [PATCH 36/52] fix: lookup tables with more than 256 values mixed up
 the values

---
 lattpy/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lattpy/utils.py b/lattpy/utils.py
index d88c021..724c00a 100644
--- a/lattpy/utils.py
+++ b/lattpy/utils.py
@@ -123,7 +123,8 @@ def create_lookup_table(
     dtype : int or np.dtype, optional
             Optional data-type for storing the indices of the unique values.
             By default `np.uint8` is used, since it is assumed that the
-            input-array has only a few unique values.
+            input-array has only a few unique values. If the data-type can't hold all
+            indices a larger one is used.
 
     Returns
     -------
@@ -133,6 +134,8 @@ def create_lookup_table(
         The corresponding indices in the same shape as the input-array.
     """
     values = np.sort(np.unique(array))
+    if len(values) > 1 and np.array(len(values) - 1).astype(dtype) != len(values) - 1:
+        dtype = np.min_scalar_type(len(values) - 1)
     indices = np.zeros_like(array, dtype=dtype)
     for i, x in enumerate(values):
         mask = array == x
-- 
2.43.0


From ac319133be06abfd2ca0b8937842ec23dc33515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:36 +0000
Subject: [PATCH 37/52] fix: adjacency matrix overflowed for more than 127
 distances

---
 lattpy/lattice.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 3bac8c0..9dffb28 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -21,7 +21,7 @@ from scipy.spatial.distance import cdist
 import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d.axes3d import Axes3D
 from typing import Union, Optional, Tuple, Iterator, Sequence, Callable
-from .utils import ArrayLike, frmt_num, NotBuiltError
+from .utils import ArrayLike, frmt_num, min_dtype, NotBuiltError
 from .plotting import (
     subplot,
     draw_sites,
@@ -1083,7 +1083,8 @@ class Lattice(LatticeStructure):
         rows, cols = pairs.T  # noqa
         data = distindices + 1
         shape = self.num_sites, self.num_sites
-        return csr_matrix((data, (rows, cols)), shape=shape, dtype=np.int8)
+        dtype = min_dtype(self.data.invalid_distidx)
+        return csr_matrix((data, (rows, cols)), shape=shape, dtype=dtype)
 
     # ==================================================================================
 
-- 
2.43.0


From b1da8f62229388a174513e642ea4dc8bae2bf01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:59 +0000
Subject: [PATCH 38/52] fix: looking up an atom object returns its own index,
 not that of another atom with the same name

---
 lattpy/structure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index b8cc4a1..706602c 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -307,6 +307,10 @@ class LatticeStructure(LatticeBasis):
         are returned.
         """
         if isinstance(atom, Atom):
+            # Atoms compare by name: find the atom itself first
+            for i, at in enumerate(self._atoms):
+                if at.index == atom.index:
+                    return i
             return self._atoms.index(atom)
         elif isinstance(atom, str):
             return [i for i, at in enumerate(self._atoms) if atom == at.name]
-- 
2.43.0


From f4e13375e601508e4881327e877bda8eee681a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:10 +0000
Subject: [PATCH 39/52] fix: nearest neighbors of a lattice without any
 neighbors are empty

---
 lattpy/data.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 994eb0a..a5f375d 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -437,10 +437,9 @@ class LatticeData:
         -------
         mask : np.ndarray
         """
-        if distidx is None:
-            mask = self.distances[site] < self.invalid_distidx
-        else:
-            mask = self.distances[site] == distidx
+        mask = self.distances[site] < self.invalid_distidx
+        if distidx is not None:
+            mask &= self.distances[site] == distidx
         if unique:
             mask &= self.neighbors[site] > site
 
-- 
2.43.0


From 8752d143a7d5bd9b1eeea1662052cab942779783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:24:49 +0000
Subject: [PATCH 40/52] fix: reciprocal lattice of left-handed basis vectors
 had the wrong sign

---
 lattpy/basis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 3a85d24..68e674e 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -481,7 +481,7 @@ class LatticeBasis:
         [[6.28318531 0.        ]
          [0.         6.28318531]]
         """
-        rvecs = self.reciprocal_vectors(min_negative)
+        rvecs = self.reciprocal_vectors()
         rlatt = self.__class__(rvecs)
         return rlatt
 
@@ -589,7 +589,7 @@ class LatticeBasis:
         ws_cell : WignerSeitzCell
             The Wigner-Seitz cell of the reciprocal lattice.
         """
-        rvecs = self.reciprocal_vectors(min_negative)
+        rvecs = self.reciprocal_vectors()
         rlatt = self.__class__(rvecs)
         return rlatt.wigner_seitz_cell()
 
-- 
2.43.0


From f88a4c6c17a02678f07e96b5bad9a853d85c9c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:01 +0000
Subject: [PATCH 41/52] fix: cell index of a single numpy integer was returned
 as an array of indices

---
 lattpy/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/basis.py b/lattpy/basis.py
index 68e674e..918e93f 100644
--- a/lattpy/basis.py
+++ b/lattpy/basis.py
@@ -640,7 +640,7 @@ class LatticeBasis:
             The cell index. Of shape (D,) if `super_index` is an integer, otherwise
             of shape (N, D).
         """
-        single = isinstance(super_index, int)
+        single = isinstance(super_index, (int, np.integer))
         super_index = np.atleast_1d(super_index)
 
         indices = np.zeros((len(super_index), self.dim), dtype=np.int64)
-- 
2.43.0


From c6881797254bc317b9db997960c2023da9dee436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:10 +0000
Subject: [PATCH 42/52] fix: interweaving arrays of different types truncated
 values

---
 lattpy/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/spatial.py b/lattpy/spatial.py
index 98d9fad..556f592 100644
--- a/lattpy/spatial.py
+++ b/lattpy/spatial.py
@@ -109,7 +109,7 @@ def interweave(arrays: Sequence[np.ndarray]) -> np.ndarray:
     """
     shape = list(arrays[0].shape)
     shape[0] = sum(x.shape[0] for x in arrays)
-    result = np.empty(shape, dtype=arrays[0].dtype)
+    result = np.empty(shape, dtype=np.result_type(*arrays))
     n = len(arrays)
     for i, arr in enumerate(arrays):
         result[i::n] = arr
-- 
2.43.0


From 217b5e321b57197aa9259f8188c6c2ddd0cfa730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:20 +0000
Subject: [PATCH 43/52] fix: atom dictionary of one-dimensional lattices could
 not be created

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 706602c..cd253bb 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -920,7 +920,7 @@ class LatticeStructure(LatticeBasis):
         atom_pos = dict()
         for atom, pos in zip(self._atoms, self._positions):
             if atleast2d and self.dim == 1:
-                pos = np.array([pos, 0])
+                pos = np.array([pos[0], 0])
 
             if atom.name in atom_pos.keys():
                 atom_pos[atom].append(pos)
-- 
2.43.0


From 98ddad62d0919e83c5143ae7d49c6573a6925326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:32 +0000
Subject: [PATCH 44/52] fix: estimate_index raised for a scalar position of a
 one-dimensional lattice

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index cd253bb..d212e03 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -712,7 +712,7 @@ class LatticeStructure(LatticeBasis):
         >>> latt.estimate_index([1.2, 0.2])
         [1 0]
         """
-        pos = np.asarray(pos)
+        pos = np.atleast_1d(pos)
         n = np.asarray(np.round(self._vectors_inv @ pos, decimals=0), dtype="int")
         return n
 
-- 
2.43.0


From f6f1a17332882c242e8ecbf61900e38d16d03759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:43 +0000
Subject: [PATCH 45/52] fix: get_atom raised for numpy integers such as those
 returned by alpha

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index d212e03..3004ded 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -355,7 +355,7 @@ class LatticeStructure(LatticeBasis):
         """
         if isinstance(atom, Atom):
             return atom
-        elif isinstance(atom, int):
+        elif isinstance(atom, (int, np.integer)):
             return self._atoms[atom]
         else:
             for at in self._atoms:
-- 
2.43.0


From 2ccf42404a70e2901bb61a3c84e3031850da1bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:04 +0000
Subject: [PATCH 46/52] fix: copy of an atom failed with a parameter named
 weight and shared mutable parameters

---
 lattpy/atom.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lattpy/atom.py b/lattpy/atom.py
index fb4fa6d..9e23f4f 100644
--- a/lattpy/atom.py
+++ b/lattpy/atom.py
@@ -10,6 +10,7 @@
 
 """Objects for representing atoms and the unitcell of a lattice."""
 
+import copy
 import itertools
 from collections import abc
 from typing import Union, Any, Iterator, Dict
@@ -81,7 +82,9 @@ class Atom(abc.MutableMapping):
 
     def copy(self) -> "Atom":
         """Creates a deep copy of the ``Atom`` instance."""
-        return Atom(self.name, weight=self.weight, **self._params.copy())
+        atom = Atom(self._name, weight=self._weight)
+        atom._params = copy.deepcopy(self._params)
+        return atom
 
     def get(self, key: str, default=None) -> Any:
         try:
-- 
2.43.0


From b9116f6d70d9974d24075548464d73a60ab19005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:45 +0000
Subject: [PATCH 47/52] fix: site masks held integers and could not be used as
 masks

---
 lattpy/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index a5f375d..2aece58 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -698,7 +698,8 @@ class LatticeData:
         for ax in range(self.dim):
             ax_data = self.positions[:, ax]
             mask &= (limits[0, ax] <= ax_data) & (ax_data <= limits[1, ax])
-        return np.asarray(1 - mask if invert else mask)
+        mask = np.asarray(mask, dtype=bool)
+        return np.logical_not(mask) if invert else mask
 
     def find_sites(
         self,
-- 
2.43.0


From 6413177d27e960dfdec607abe6b4d7d40fc3f381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:55 +0000
Subject: [PATCH 48/52] fix: data map mixed up the atoms of cells with more
 than 128 atoms

---
 lattpy/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/data.py b/lattpy/data.py
index 2aece58..a577607 100644
--- a/lattpy/data.py
+++ b/lattpy/data.py
@@ -647,7 +647,7 @@ class LatticeData:
         datamap : DataMap
         """
         if self._dmap is None:
-            alphas = self.indices[:, -1].astype(np.int8)
+            alphas = self.indices[:, -1].astype(np.int64)
             # Build index pairs and corresponding distance array
             dtype = np.min_scalar_type(self.num_sites)
             sites = np.arange(self.num_sites, dtype=dtype)
-- 
2.43.0


From fe364747e6b81bc92178df994fc0ac2dcf1c9c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:43 +0000
Subject: [PATCH 49/52] fix: upper limits of a box were checked without
 tolerance

---
 lattpy/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/structure.py b/lattpy/structure.py
index 3004ded..06729ba 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -980,7 +980,7 @@ class LatticeStructure(LatticeBasis):
 
             pos = np.zeros(self.dim) if pos is None else np.array(pos, dtype=np.float64)
             pos -= tol
-            end = pos + shape + tol
+            end = pos + shape + 2 * tol
 
             mask = (pos[0] <= points[:, 0]) & (points[:, 0] <= end[0])
             for i in range(1, self.dim):
-- 
2.43.0


From 7d08d13471c50a04b92b35bae7cba94e65546ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:10 +0000
Subject: [PATCH 50/52] fix: connections between two lattices contained pairs
 that are not neighbors

---
 lattpy/lattice.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 9dffb28..500dfe0 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -743,7 +743,16 @@ class Lattice(LatticeStructure):
             The corresponding distances for the connections.
         """
         positions2 = latt.data.positions
-        return self._compute_connection_neighbors(self.data.positions, positions2)
+        pairs, dists = self._compute_connection_neighbors(
+            self.data.positions, positions2
+        )
+        # Remove pairs which are in range, but not connected
+        alphas1, alphas2 = self.data.indices[:, -1], latt.data.indices[:, -1]
+        mask = np.zeros(len(pairs), dtype=bool)
+        for n, ((i, j), dist) in enumerate(zip(pairs, dists)):
+            allowed = self._distance_matrix[alphas1[i]][alphas2[j]]
+            mask[n] = np.round(dist, self.DIST_DECIMALS) in allowed
+        return pairs[mask], dists[mask]
 
     def minimum_distances(self, site, primitive=None):
         """Computes the minimum distances between one site and the other lattice sites.
-- 
2.43.0


From 62dc445c2c45aa7e8b11ff8ebf7bd80a24d865a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:13 +0000
Subject: [PATCH 51/52] fix: neighbors were lost if a distance lies between two
 rounded values

---
 lattpy/lattice.py   |  7 +++++--
 lattpy/structure.py | 25 +++++++++++++++++++------
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/lattpy/lattice.py b/lattpy/lattice.py
index 500dfe0..e1332f3 100644
--- a/lattpy/lattice.py
+++ b/lattpy/lattice.py
@@ -749,9 +749,12 @@ class Lattice(LatticeStructure):
         # Remove pairs which are in range, but not connected
         alphas1, alphas2 = self.data.indices[:, -1], latt.data.indices[:, -1]
         mask = np.zeros(len(pairs), dtype=bool)
-        for n, ((i, j), dist) in enumerate(zip(pairs, dists)):
+        rounded = self._match_distances(
+            np.round(dists, self.DIST_DECIMALS), self.distances
+        )
+        for n, ((i, j), dist) in enumerate(zip(pairs, rounded)):
             allowed = self._distance_matrix[alphas1[i]][alphas2[j]]
-            mask[n] = np.round(dist, self.DIST_DECIMALS) in allowed
+            mask[n] = dist in allowed
         return pairs[mask], dists[mask]
 
     def minimum_distances(self, site, primitive=None):
diff --git a/lattpy/structure.py b/lattpy/structure.py
index 06729ba..eacd493 100644
--- a/lattpy/structure.py
+++ b/lattpy/structure.py
@@ -459,6 +459,14 @@ class LatticeStructure(LatticeBasis):
         positions = np.asarray(self._positions)
         return np.max(np.linalg.norm(positions[:, None] - positions[None], axis=-1))
 
+    def _match_distances(self, distances, values):
+        """Sets distances that only differ in the last decimal to the given values."""
+        tol = 1.5 * 10**-self.DIST_DECIMALS
+        values = np.unique(np.append(values, np.inf))
+        values = values[np.append(True, np.diff(values) > tol)]
+        idx = np.searchsorted(values, distances - tol)
+        return np.where(values[idx] < distances + tol, values[idx], distances)
+
     def _compute_base_neighbors(self, max_distidx, num_jobs=1):
         logger.debug("Building indices of neighbor-cells")
 
@@ -488,14 +496,18 @@ class LatticeStructure(LatticeBasis):
         neighbor_array = [
             [collections.OrderedDict() for _ in range(n)] for _ in range(n)
         ]
+        neighbors, distances = tree.query(
+            self.atom_positions,
+            num_jobs,
+            self.DIST_DECIMALS,
+            include_zero=True,
+            compact=False,
+        )
+        distances = self._match_distances(distances, distances)
         for a1 in range(self.num_base):
-            pos = self.atom_positions[a1]
-            neighbors, distances = tree.query(
-                pos, num_jobs, self.DIST_DECIMALS, include_zero=True, compact=False
-            )
-            neighbor_indices = indices[neighbors]
+            neighbor_indices = indices[neighbors[a1]]
             # Store neighbors of certain distance for each atom pair in the unit cell
-            for dist, idx in zip(distances, neighbor_indices):
+            for dist, idx in zip(distances[a1], neighbor_indices):
                 a2 = idx[-1]
                 if dist:
                     neighbor_array[a1][a2].setdefault(dist, list()).append(idx)
@@ -1230,6 +1242,7 @@ class LatticeStructure(LatticeBasis):
         alphas = indices_padded[neighbors, -1]
 
         # Remove not connected neighbors
+        distances = self._match_distances(distances, self.distances)
         dist_matrix = self._distance_matrix
         num_base = len(dist_matrix)
         for a1 in range(num_base):
-- 
2.43.0


From 797b26f325d044395b6f7cf7e9f69777b2fdb9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:22 +0000
Subject: [PATCH 52/52] fix: points of a dispersion path changed with the given
 array

---
 lattpy/disptools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lattpy/disptools.py b/lattpy/disptools.py
index c94c6f1..ded3a6d 100644
--- a/lattpy/disptools.py
+++ b/lattpy/disptools.py
@@ -337,7 +337,7 @@ class DispersionPath:
         """
         if not name:
             name = str(len(self.points))
-        point = np.asarray(point)
+        point = np.array(point)
         if self.dim:
             point = point[: self.dim]
         else:
-- 
2.43.0

