From eb9c207cb28a9cd4692beee9d2e4940b0b8ba473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 01/72] fix: build the shim library in a private directory and
 move it into place

A request that used the lock-free fast path while another process was compiling, or that followed
a crash in the middle of a compilation, was handed a partially written library.
---
 python/qugar/dolfinx/_shim/__init__.py | 59 +++++++++++++++-----------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/python/qugar/dolfinx/_shim/__init__.py b/python/qugar/dolfinx/_shim/__init__.py
index 311f45a..e1d86cd 100644
--- a/python/qugar/dolfinx/_shim/__init__.py
+++ b/python/qugar/dolfinx/_shim/__init__.py
@@ -26,6 +26,7 @@ import shutil
 import subprocess
 import sys
 import sysconfig
+import tempfile
 import threading
 from pathlib import Path
 
@@ -144,30 +145,40 @@ def ensure_built() -> tuple[Path, str]:
         if lib.exists() and lib.stat().st_mtime >= src_mtime:
             return cache, LIB_NAME
 
-        prefix = Path(sys.prefix)
-        cmd = [
-            str(_find_cxx()),
-            "-std=c++20",
-            "-O2",
-            "-fPIC",
-            "-shared",
-            f"-I{prefix / 'include'}",
-            f"-L{prefix / 'lib'}",
-            "-lbasix",
-            f"-Wl,-rpath,{prefix / 'lib'}",
-            "-o",
-            str(lib),
-            str(SHIM_SRC),
-        ]
-        # Align the shim's macOS deployment target with what cffi will use
-        # when it links the kernel (otherwise ld warns "built for newer
-        # version X" because conda clang's default target is much newer).
-        if sys.platform == "darwin":
-            target = (os.environ.get("MACOSX_DEPLOYMENT_TARGET")
-                      or sysconfig.get_config_var("MACOSX_DEPLOYMENT_TARGET"))
-            if target:
-                cmd.insert(cmd.index("-o"), f"-mmacosx-version-min={target}")
-        subprocess.run(cmd, check=True)
+        # Build into a private directory and move the result into place: the
+        # lock-free fast path above (of any process) and the requests that
+        # follow a crash must only ever see a complete library.
+        with tempfile.TemporaryDirectory(prefix=".build-", dir=cache) as tmp_dir:
+            tmp_lib = Path(tmp_dir) / _LIB_FILENAME
+            prefix = Path(sys.prefix)
+            cmd = [
+                str(_find_cxx()),
+                "-std=c++20",
+                "-O2",
+                "-fPIC",
+                "-shared",
+                f"-I{prefix / 'include'}",
+                f"-L{prefix / 'lib'}",
+                "-lbasix",
+                f"-Wl,-rpath,{prefix / 'lib'}",
+                "-o",
+                str(tmp_lib),
+                str(SHIM_SRC),
+            ]
+            if sys.platform == "darwin":
+                # The install name defaults to the output path, which is not
+                # the final one.
+                cmd.insert(cmd.index("-o"), f"-Wl,-install_name,{lib}")
+                # Align the shim's macOS deployment target with what cffi will
+                # use when it links the kernel (otherwise ld warns "built for
+                # newer version X" because conda clang's default target is much
+                # newer).
+                target = (os.environ.get("MACOSX_DEPLOYMENT_TARGET")
+                          or sysconfig.get_config_var("MACOSX_DEPLOYMENT_TARGET"))
+                if target:
+                    cmd.insert(cmd.index("-o"), f"-mmacosx-version-min={target}")
+            subprocess.run(cmd, check=True)
+            os.replace(tmp_lib, lib)
         return cache, LIB_NAME
 
 
-- 
2.43.0


From 22ef11b290c962ca68dc2cf980370fe038849777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 02/72] fix: return the internal tensor-product indices as a
 flat sorted array

In 2D a two-dimensional array was returned, and in 3D the broadcast of it failed or gave a wrong
set of indices.
---
 python/qugar/mesh/tp_index.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index 4f11249..f0ec99e 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -95,17 +95,23 @@ class TensorProdIndex:
             return np.arange(1, n_inds[0] - 1, dtype=np.int64)
         elif dim == 2:
             internals_1D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_1D + np.arange(
-                n_inds[0], n_inds[0] * (n_inds[1] - 1), n_inds[0], dtype=np.int64
-            ).reshape(n_inds[1] - 2, 1)
+            return (
+                internals_1D
+                + np.arange(
+                    n_inds[0], n_inds[0] * (n_inds[1] - 1), n_inds[0], dtype=np.int64
+                ).reshape(n_inds[1] - 2, 1)
+            ).ravel()
         else:  # if dim == 3:
             internals_2D = TensorProdIndex.get_all_internal(n_inds[:-1])
-            return internals_2D + np.arange(
-                n_inds[0] * n_inds[1],
-                n_inds[0] * n_inds[1] * (n_inds[2] - 1),
-                n_inds[0] * n_inds[1],
-                dtype=np.int64,
-            ).reshape(n_inds[2] - 2, 1)
+            return (
+                internals_2D
+                + np.arange(
+                    n_inds[0] * n_inds[1],
+                    n_inds[0] * n_inds[1] * (n_inds[2] - 1),
+                    n_inds[0] * n_inds[1],
+                    dtype=np.int64,
+                ).reshape(n_inds[2] - 2, 1)
+            ).ravel()
 
     @staticmethod
     def get_all_faces(n_inds: npt.NDArray[np.int32]) -> npt.NDArray[np.int64]:
-- 
2.43.0


From 6428c977ea2af60d18d2c96ed73f513e37bbf2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:14 +0000
Subject: [PATCH 03/72] fix: numbering of the vertical edges of hexahedra in
 the DOLFINx conversion

The DOLFINx edges (1,5) and (2,6) were exchanged, so that get_edge returned the indices of another
edge.
---
 python/qugar/mesh/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/utils.py b/python/qugar/mesh/utils.py
index 4a09515..2364ccf 100644
--- a/python/qugar/mesh/utils.py
+++ b/python/qugar/mesh/utils.py
@@ -645,7 +645,7 @@ def lexicg_to_DOLFINx_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return lexicg_to_DOLFINx_faces(dim)
     else:  # if dim == 3:
-        return np.array([8, 4, 0, 5, 2, 9, 1, 3, 10, 6, 7, 11], dtype=np.int32)
+        return np.array([8, 4, 0, 5, 1, 9, 2, 3, 10, 6, 7, 11], dtype=np.int32)
 
 
 @staticmethod
@@ -668,7 +668,7 @@ def DOLFINx_to_lexicg_edges(dim: int) -> npt.NDArray[np.int32]:
     if dim < 3:
         return DOLFINx_to_lexicg_faces(dim)
     else:  # if dim == 3:
-        return np.array([2, 6, 4, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
+        return np.array([2, 4, 6, 7, 1, 3, 9, 10, 0, 5, 8, 11], dtype=np.int32)
 
 
 import qugar.utils
-- 
2.43.0


From fdbbc75cf75cad137b1db895c34f8bc21106dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 04/72] fix: number the facets of a process from zero when
 collecting mesh facets

local_range holds global indices; they were used as local facet ids. The facet index map is also created
before it is queried.
---
 python/qugar/mesh/mesh_facets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 44663a1..1c3d135 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -478,7 +478,7 @@ if qugar.utils.has_FEniCSx:
         ext_facets = dolfinx.mesh.exterior_facet_indices(topology)
 
         imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = np.arange(imap.size_local, dtype=np.int32)
 
         int_facets = np.setdiff1d(all_facets, ext_facets, assume_unique=True)
 
@@ -504,7 +504,9 @@ if qugar.utils.has_FEniCSx:
             MeshFacets: A MeshFacets instance with all facets.
         """
         topology = mesh.topology
+        topology.create_connectivity(topology.dim - 1, topology.dim)
+
         imap = topology.index_map(topology.dim - 1)
-        all_facets = np.arange(imap.local_range[0], imap.local_range[1], dtype=np.int32)
+        all_facets = np.arange(imap.size_local, dtype=np.int32)
 
         return create_facets_from_ids(mesh, all_facets, single_interior_facet)
-- 
2.43.0


From b54ebfa5afbaf44df8ad863bebef12fb062b471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 05/72] fix: pass ghost mode and type of create_Cartesian_mesh
 by name

They were received as the active cells and the ghost mode.
---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index e44f7ff..8bc2d00 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -606,4 +606,6 @@ def create_Cartesian_mesh(
 
     cpp_grid = qugar.cpp.create_cart_grid(cell_breaks)
 
-    return CartesianMesh(comm, cpp_grid, degree, ghost_mode, xmin_.dtype.type)
+    return CartesianMesh(
+        comm, cpp_grid, degree, ghost_mode=ghost_mode, dtype=xmin_.dtype.type
+    )
-- 
2.43.0


From 662f8932d70bb89c321e7701fa1123190d6ff13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 06/72] fix: use DOLFINx local facet numbering in
 get_face_facets

---
 python/qugar/mesh/tp_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 8bc2d00..51cdcda 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -30,6 +30,7 @@ import qugar.cpp
 from qugar.mesh.mesh import Mesh
 from qugar.mesh.tp_index import TensorProdIndex
 from qugar.mesh.utils import (
+    DOLFINx_to_lexicg_faces,
     DOLFINx_to_lexicg_nodes,
 )
 
@@ -435,7 +436,8 @@ class TensorProductMesh(Mesh):
         cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, -1)
 
         dlf_local_cells = self.get_face_DOLFINx_cells(face_id)
-        return np.sort(np.unique(cell_to_facets[dlf_local_cells, face_id]))
+        dlf_face_id = DOLFINx_to_lexicg_faces(tdim)[face_id]
+        return np.sort(np.unique(cell_to_facets[dlf_local_cells, dlf_face_id]))
 
     def get_cell_tensor_index(self, dlf_local_cell_id: np.int32) -> npt.NDArray[np.int32]:
         """Computes the tensor index referred to the tensor-product mesh
-- 
2.43.0


From ce414451eeb0ba833579ecac5c6fb0bb23be7e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 07/72] fix: index error in get_cell_tensor_index

---
 python/qugar/mesh/tp_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 51cdcda..8a9e9d9 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -450,7 +450,7 @@ class TensorProductMesh(Mesh):
             npt.NDArray[np.int32]: Cell tensor index
         """
 
-        lex_cell_id = self.get_original_cell_ids(np.array(dlf_local_cell_id, dtype=np.int32))[0]
+        lex_cell_id = self.get_original_cell_ids(np.array([dlf_local_cell_id], dtype=np.int32))[0]
         return TensorProdIndex.get_tensor_index(self.num_cells_dir, lex_cell_id)
 
 
-- 
2.43.0


From 101a2e35091033139403ea5d022c20534d577c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 08/72] fix: report ids as absent in a process without cells or
 nodes

---
 python/qugar/mesh/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index b3b43ac..d768b7c 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -124,6 +124,9 @@ def _find_in_array(values_to_search: npt.NDArray, all_values: npt.NDArray) -> np
         it returns -1.
     """
 
+    if all_values.size == 0:
+        return np.full(values_to_search.size, -1, dtype=np.int64)
+
     index = np.argsort(all_values)
     sorted_all_values = all_values[index]
 
-- 
2.43.0


From 8b270ed9521ae57e115e3c65f933b8fc2989435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 09/72] fix: default tolerance for merging nodes

It is relative to the largest side of the bounding box, as documented, wherever the box is.
---
 python/qugar/mesh/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index d768b7c..a6a66aa 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -77,7 +77,7 @@ def _merge_coincident_points_in_mesh(
     kdtree = sp.spatial.KDTree(nodes)
 
     if tolerance is None:
-        tolerance = cast(nodes.dtype.type, 1.0e-5 * (np.max(nodes) - np.min(nodes)))
+        tolerance = cast(nodes.dtype.type, 1.0e-5 * np.max(np.ptp(nodes, axis=0)))
     coincidences = kdtree.query_pairs(tolerance, output_type="ndarray")
 
     master = coincidences[:, 0]
-- 
2.43.0


From 9eaf46671e77128868ae9897bd99cb8db5e1d9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 10/72] fix: querying the empty interior facets overwrote the
 cut ones

---
 python/qugar/mesh/unfitted_domain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/unfitted_domain.py b/python/qugar/mesh/unfitted_domain.py
index 1dba4a0..dc09b6e 100644
--- a/python/qugar/mesh/unfitted_domain.py
+++ b/python/qugar/mesh/unfitted_domain.py
@@ -456,10 +456,10 @@ class UnfittedDomain(UnfittedDomainABC):
                 )
 
                 if not unf_non_cut_facets.empty:
-                    self._interior_cut_facets = self._interior_empty_facets.concatenate(
+                    self._interior_empty_facets = self._interior_empty_facets.concatenate(
                         unf_non_cut_facets
                     )
-                    self._interior_cut_facets.unique()
+                    self._interior_empty_facets.unique()
 
         return self._interior_empty_facets
 
-- 
2.43.0


From eb52d7c52fc7f58362bf9b933a2df02b8f55c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:48 +0000
Subject: [PATCH 11/72] fix: tag the empty facets with the requested tag in
 create_facet_tags

---
 python/qugar/mesh/unfitted_domain_abc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/mesh/unfitted_domain_abc.py b/python/qugar/mesh/unfitted_domain_abc.py
index 2047342..bbe8b3e 100644
--- a/python/qugar/mesh/unfitted_domain_abc.py
+++ b/python/qugar/mesh/unfitted_domain_abc.py
@@ -495,6 +495,6 @@ class UnfittedDomainABC(ABC):
             add_facets(self.get_full_facets(ext_integral), full_tag)
 
         if empty_tag is not None:
-            add_facets(self.get_empty_facets(ext_integral), cut_tag)
+            add_facets(self.get_empty_facets(ext_integral), empty_tag)
 
         return list((tag, facets.as_array()) for tag, facets in facet_tags.items())
-- 
2.43.0


From c3cf0f5c7a9d056802d5d38a7be641ad2009064e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 12/72] fix: facet queries in a process without cells

---
 python/qugar/mesh/mesh_facets.py | 4 +++-
 python/qugar/mesh/tp_mesh.py     | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/qugar/mesh/mesh_facets.py b/python/qugar/mesh/mesh_facets.py
index 1c3d135..1009df2 100644
--- a/python/qugar/mesh/mesh_facets.py
+++ b/python/qugar/mesh/mesh_facets.py
@@ -375,7 +375,9 @@ if qugar.utils.has_FEniCSx:
         topology.create_connectivity(tdim, tdim - 1)
         conn = topology.connectivity(tdim, tdim - 1)
 
-        return conn.array.reshape(conn.num_nodes, -1)
+        # The number of facets per cell cannot be deduced if there are no cells.
+        n_facets = conn.array.size // max(conn.num_nodes, 1)
+        return conn.array.reshape(conn.num_nodes, n_facets)
 
     def create_facets_from_ids(
         mesh: dolfinx.mesh.Mesh,
diff --git a/python/qugar/mesh/tp_mesh.py b/python/qugar/mesh/tp_mesh.py
index 8a9e9d9..418cb69 100644
--- a/python/qugar/mesh/tp_mesh.py
+++ b/python/qugar/mesh/tp_mesh.py
@@ -433,7 +433,7 @@ class TensorProductMesh(Mesh):
         tdim = self.tdim
         self.topology.create_connectivity(tdim, tdim - 1)
         cell_to_facets = self.topology.connectivity(tdim, tdim - 1)
-        cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, -1)
+        cell_to_facets = cell_to_facets.array.reshape(cell_to_facets.num_nodes, 2 * tdim)
 
         dlf_local_cells = self.get_face_DOLFINx_cells(face_id)
         dlf_face_id = DOLFINx_to_lexicg_faces(tdim)[face_id]
-- 
2.43.0


From ae4b7f86b31b5d34bd794f5730502374795041d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 13/72] fix: use the equispaced variant for the geometry of
 meshes

The nodes are equally spaced; interpreted as warped ones, cells of degree 3 or higher were distorted.
---
 python/qugar/mesh/mesh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index a6a66aa..be48e2d 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -350,7 +350,12 @@ class Mesh(dolfinx.mesh.Mesh):
             gdim = nodes_coords.shape[1]
 
         element = basix.ufl.element(
-            "Lagrange", cell_type, self.degree, shape=(gdim,), dtype=nodes_coords.dtype
+            "Lagrange",
+            cell_type,
+            self.degree,
+            lagrange_variant=basix.LagrangeVariant.equispaced,
+            shape=(gdim,),
+            dtype=nodes_coords.dtype,
         )
         domain = ufl.Mesh(element)
 
-- 
2.43.0


From 00c7b4aa62d1bc42c40007d58e79c99aedad2e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 14/72] fix: share the map of merged nodes with all the
 processes

---
 python/qugar/mesh/mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/qugar/mesh/mesh.py b/python/qugar/mesh/mesh.py
index be48e2d..4641147 100644
--- a/python/qugar/mesh/mesh.py
+++ b/python/qugar/mesh/mesh.py
@@ -393,6 +393,10 @@ class Mesh(dolfinx.mesh.Mesh):
             n_nodes_per_cell = cmap.dim
             conn = np.empty((0, n_nodes_per_cell), dtype=np.int64, order="C")
 
+        if merge_nodes:
+            # Only created in rank 0, but needed by all the processes.
+            self._merged_nodes_map = comm.bcast(self._merged_nodes_map, root=0)
+
         if comm.size > 1:
             partitioner = dlf_cpp.mesh.create_cell_partitioner(ghost_mode)
         else:
-- 
2.43.0


From e280470bf2177ad944c7f702f3133a38c92dacd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:49 +0000
Subject: [PATCH 15/72] fix: provide the seventh and eighth permutation of
 quadrilateral facets

---
 python/qugar/dolfinx/custom_quad_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_quad_utils.py b/python/qugar/dolfinx/custom_quad_utils.py
index ead8b52..7fdf1a9 100644
--- a/python/qugar/dolfinx/custom_quad_utils.py
+++ b/python/qugar/dolfinx/custom_quad_utils.py
@@ -147,7 +147,7 @@ def _create_permutation_operators(
         RfRt2 = Rf @ Rt2
         perms = [np.eye(3), Rf, Rt, RfRt, Rt2, RfRt2]
 
-        if cell_type == "quadrilateral":
+        if cell_name == "quadrilateral":
             perms.extend([Rt2 @ Rt, RfRt2 @ Rt])
 
         return perms
-- 
2.43.0


From 49955b9bacfa8a7504cdc4b74cbe012158779d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:12 +0000
Subject: [PATCH 16/72] fix: mark the right interior facets as empty in the
 packed coefficients

---
 python/qugar/dolfinx/custom_coefficients.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index a88327d..1cdebf4 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -419,7 +419,11 @@ class _CustomCoeffsPackerIntegral:
         else:
             all_rel_offsets[self._custom_entity_ids] = rel_offsets
         # And finally for the empty entities we set the offset to 0.
-        all_rel_offsets[self._get_empty_entities_ids()] = 0
+        empty_ids = self._get_empty_entities_ids()
+        if interior_facet:
+            all_rel_offsets_[empty_ids, 0] = 0
+        else:
+            all_rel_offsets[empty_ids] = 0
 
         # Copy intp offsets into the trailing coeff cells via a byte view.
         # For coeffs whose cell is smaller-or-equal to intp (float32, float64,
-- 
2.43.0


From 97999f7873aec7f9e8984dc512254a5c46df51d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:42 +0000
Subject: [PATCH 17/72] fix: keep the coefficients of both sides of interior
 facets contiguous

---
 python/qugar/dolfinx/codegeneration.py      |  4 ++-
 python/qugar/dolfinx/custom_coefficients.py | 40 ++++++++++++++++++---
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index b2b9de2..db230e1 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -141,7 +141,9 @@ class _IntegralModifier:
         else:
             coeff = list(self._ir.expression.coefficient_offsets.keys())[-1]
             element = coeff.ufl_function_space().element  # type: ignore
-            return offsets[-1] + element.space_dimension
+            # In interior facets, the coefficients are stored for both sides.
+            width = 2 if self._data.integral_type == "interior_facet" else 1
+            return offsets[-1] + width * element.space_dimension
 
     def _check_FFCx_input(self) -> None:
         """Checks the validity of the integral to be modified.
diff --git a/python/qugar/dolfinx/custom_coefficients.py b/python/qugar/dolfinx/custom_coefficients.py
index 1cdebf4..2bc0d37 100644
--- a/python/qugar/dolfinx/custom_coefficients.py
+++ b/python/qugar/dolfinx/custom_coefficients.py
@@ -62,6 +62,30 @@ def _find_common_rows(A: npt.NDArray[np.int32], B: npt.NDArray[np.int32]) -> npt
     return np.where(mask)[0]
 
 
+def _copy_standard_coeffs(
+    coeffs: FloatingArray, new_coeffs: FloatingArray, interior_facet: bool
+) -> None:
+    """Copies the standard coefficients to the array of custom ones.
+
+    In the case of interior facets, every facet has two rows, that
+    DOLFINx passes contiguously to the kernels. Thus, the standard
+    coefficients of both sides must remain contiguous.
+
+    Args:
+        coeffs (FloatingArray): Standard coefficients.
+        new_coeffs (FloatingArray): Array of custom coefficients. It has
+            (at least) as many rows and columns as `coeffs`.
+        interior_facet (bool): ``True`` if the coefficients correspond
+            to interior facets, ``False`` otherwise.
+    """
+    n_rows, n_cols = coeffs.shape
+    width = 2 if interior_facet else 1
+    n_entities = n_rows // width
+
+    rows = new_coeffs[:n_rows].reshape(n_entities, width * new_coeffs.shape[1])
+    rows[:, : width * n_cols] = coeffs.reshape(n_entities, width * n_cols)
+
+
 class _CustomCoeffsPackerIntegral:
     """Class for computing coefficients for a single custom integral.
 
@@ -450,7 +474,15 @@ class _CustomCoeffsPackerIntegral:
             all_rel_offsets_view = padded.view(self._coeffs_dtype).reshape(
                 [-1, n_extra_cols]
             )
-        self._new_coeffs[:n_entities, -n_extra_cols:] = all_rel_offsets_view
+        if interior_facet:
+            # The two rows of an interior facet are passed contiguously to the
+            # kernel, thus the (single) offset comes after the standard
+            # coefficients of both sides.
+            rows = self._new_coeffs[:n_entities].reshape(n_tot_entities, 2 * n_cols_complex)
+            first_col = 2 * self._old_coeffs.shape[1]
+            rows[:, first_col : first_col + n_extra_cols] = all_rel_offsets_view[::2]
+        else:
+            self._new_coeffs[:n_entities, -n_extra_cols:] = all_rel_offsets_view
 
     def _copy_vals(
         self,
@@ -802,8 +834,7 @@ class _CustomCoeffsPackerIntegral:
         self._allocate_new_coeffs()
 
         # Copying old coefficients to the new array.
-        old_shape = self._old_coeffs.shape
-        self._new_coeffs[: old_shape[0], : old_shape[1]] = self._old_coeffs
+        _copy_standard_coeffs(self._old_coeffs, self._new_coeffs, self._is_interior_facet())
 
         self._compute_offsets()
         self._copy_vals(self._compute_new_vals())
@@ -992,9 +1023,8 @@ class CustomCoeffsPacker:
 
         new_coeffs = {}
         for itg_info, _new_coeffs_dlf in new_coeffs_dlf.items():
-            shape = _new_coeffs_dlf.shape
             c = coeffs[itg_info]
-            c[: shape[0], : shape[1]] = _new_coeffs_dlf
+            _copy_standard_coeffs(_new_coeffs_dlf, c, itg_info[0] == IntegralType.interior_facet)
             new_coeffs[itg_info] = c
 
         return new_coeffs
-- 
2.43.0


From 0e921c87ac44ceea3451e60ef1e8224e0f7fb3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 18/72] fix: compare versions lexicographically in
 _compare_version_le

---
 python/qugar/utils.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/python/qugar/utils.py b/python/qugar/utils.py
index 64b899b..92d5a7b 100644
--- a/python/qugar/utils.py
+++ b/python/qugar/utils.py
@@ -102,15 +102,7 @@ def _compare_version_le(version_lhs: str, version_rhs: str) -> bool:
         bool: ``True`` if version_lhs is smaller or equal than version_rhs,
         ``False`` otherwise.
     """
-    lhs = _extract_version(version_lhs)
-    rhs = _extract_version(version_rhs)
-
-    if lhs[0] > rhs[0]:
-        return False
-    elif lhs[1] > rhs[1]:
-        return False
-    else:
-        return lhs[2] <= rhs[2]
+    return not _compare_version_lt(version_rhs, version_lhs)
 
 
 def check_version_in_range(version, lower, upper) -> bool:
-- 
2.43.0


From 8f43746ed7588812884fa7419f837a11f3ea5bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 19/72] fix: lists of forms were returned empty

---
 python/qugar/dolfinx/forms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index 63a5567..c70a415 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -358,6 +358,8 @@ def form_custom(
         for i in lst:
             if isinstance(i, list):
                 new_lst.extend(_flatten_list(i))
+            else:
+                new_lst.append(i)
         return new_lst
 
     def _create_form(form) -> CustomForm | None | list[CustomForm | None]:
-- 
2.43.0


From b33fe5e79ab8380d4d7d2c59cd40b0a92112fad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 20/72] fix: do not modify the form compiler options of the
 caller

---
 python/qugar/dolfinx/forms.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index c70a415..add332c 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -229,9 +229,8 @@ def form_custom(
         scalar type, e.g. :func:`_cpp.fem.Form_float64`.
     """
 
-    if form_compiler_options is None:
-        form_compiler_options = dict()
-
+    # Copied, so the options of the caller are not modified.
+    form_compiler_options = dict(form_compiler_options or {})
     form_compiler_options["scalar_type"] = dtype
     ftype = form_cpp_class(dtype)
 
-- 
2.43.0


From 3ba993e0a17d9f8ca10ae703f4bf0b814165f035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:22 +0000
Subject: [PATCH 21/72] fix: do not modify the caller's form for the exterior
 facet integrals everywhere

The integrals and the metadata dictionary of the measure were modified in place (and
the latter never restored), identifiers in tuples were not considered when choosing
the new one, and integrals with and without identifier of the same measure failed.
---
 python/qugar/dolfinx/forms.py | 76 +++++++++++++++++------------------
 1 file changed, 36 insertions(+), 40 deletions(-)

diff --git a/python/qugar/dolfinx/forms.py b/python/qugar/dolfinx/forms.py
index add332c..634323a 100644
--- a/python/qugar/dolfinx/forms.py
+++ b/python/qugar/dolfinx/forms.py
@@ -21,6 +21,7 @@
 from __future__ import annotations
 
 import collections.abc
+import numbers
 import types
 import typing
 from itertools import chain
@@ -133,8 +134,8 @@ def _modify_everywhere_exterior_facet_integrals(form):
 
     Finds exterior facet integrals defined on the whole boundary
     (subdomain_id is "everywhere" or -1) and assigns them a unique
-    integer ID greater than any existing exterior facet subdomain ID.
-    It also adds metadata to mark these integrals.
+    integer ID greater than any existing exterior facet subdomain ID
+    (in the form or in its subdomain data). It also adds metadata to mark these integrals.
 
     This is necessary because by default DOLFINx defines exterior
     facet integrals over the exterior facets only. However, in the
@@ -142,40 +143,40 @@ def _modify_everywhere_exterior_facet_integrals(form):
     computed over non exterior facets.
 
     Args:
-        form: The dolfinx form object.
+        form: The UFL form. It is not modified.
 
     Returns:
-        The modified dolfinx form object.
+        A new UFL form in which the exterior facet integrals defined
+        everywhere are replaced.
     """
 
-    def _get_max_subdomain_id():
-        subdomain_id = -1
-        for integral in form.integrals():
-            if integral.integral_type() == "exterior_facet":
-                if isinstance(integral.subdomain_id(), int):
-                    subdomain_id = max(subdomain_id, integral.subdomain_id())
-        return subdomain_id + 1
-
-    old_integrals = list(form.integrals())
-
-    for i, integral in enumerate(form.integrals()):
+    new_id = 0
+    for integral in form.integrals():
         if integral.integral_type() == "exterior_facet":
-            # Check if the integral is over the whole domain
-            if integral.subdomain_id() in ("everywhere", -1):
-                old_integrals[i] = integral.reconstruct(
-                    integral.integrand(),
-                    integral.integral_type(),
-                    integral.ufl_domain(),
-                    integral.subdomain_id(),
-                    integral.metadata().copy(),
-                    integral.subdomain_id(),
-                )
-
-                integral._subdomain_data = None
-                integral._subdomain_id = _get_max_subdomain_id()
-                integral._metadata.update({"ext_facet_everywhere": True})
+            ids = integral.subdomain_id()
+            ids = list(ids) if isinstance(ids, tuple) else [ids]
+            if isinstance(integral.subdomain_data(), list):
+                ids += [sid for sid, _ in integral.subdomain_data()]
+            for sid in ids:
+                if isinstance(sid, numbers.Integral):
+                    new_id = max(new_id, int(sid) + 1)
+
+    integrals = []
+    for integral in form.integrals():
+        # Check if the integral is over the whole boundary
+        if integral.integral_type() == "exterior_facet" and (
+            integral.subdomain_id() in ("everywhere", -1)
+        ):
+            # New containers are needed: the integral and its metadata
+            # belong to the caller (the latter is shared with the measure).
+            integral = integral.reconstruct(
+                subdomain_id=new_id,
+                metadata=dict(integral.metadata(), ext_facet_everywhere=True),
+            )
+            new_id += 1
+        integrals.append(integral)
 
-    return form, tuple(old_integrals)
+    return ufl.Form(integrals)
 
 
 def form_custom(
@@ -245,7 +246,7 @@ def form_custom(
         # replaces the ``"everywhere"`` subdomain id with a fresh
         # numerical one and tags the integral with a metadata flag so
         # the unfitted facets can be attached later.
-        form, old_integrals = _modify_everywhere_exterior_facet_integrals(form)
+        form = _modify_everywhere_exterior_facet_integrals(form)
 
         # Extract subdomain data from UFL form
         sd = form.subdomain_data()
@@ -296,7 +297,10 @@ def form_custom(
         subdomain_ids = {type: [] for type in sd.get(domain).keys()}
         everywhere_ext_facet_ids = []
         for integral in form.integrals():
-            if integral.subdomain_data() is not None:
+            if integral.metadata().get("ext_facet_everywhere", False):
+                assert integral.subdomain_id() not in ("everywhere", -1)
+                everywhere_ext_facet_ids.append(integral.subdomain_id())
+            elif integral.subdomain_data() is not None:
                 # Subdomain ids can be strings, its or tuples with
                 # strings and ints
                 if integral.subdomain_id() != "everywhere":
@@ -308,11 +312,6 @@ def form_custom(
                 else:
                     ids = []
                 subdomain_ids[integral.integral_type()].append(ids)
-            elif integral.integral_type() == "exterior_facet":
-                metadata = integral.metadata()
-                if "ext_facet_everywhere" in metadata and metadata["ext_facet_everywhere"]:
-                    assert integral.subdomain_id() not in ("everywhere", -1)
-                    everywhere_ext_facet_ids.append(integral.subdomain_id())
 
         # Chain and sort subdomain ids
         for itg_type, marker_ids in subdomain_ids.items():
@@ -333,9 +332,6 @@ def form_custom(
             ext_facets = unf_domain.get_all_facets(ext_integral=True).as_array()
             subdomains[IntegralType.exterior_facet].append((subdomain_id, ext_facets))
 
-        # Reverting modified exterior integrals
-        form._integrals = old_integrals
-
         if entity_maps is None:
             _entity_maps = []
         else:
-- 
2.43.0


From d8152a379674fca93c429d287cf4183cd974a82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:42 +0000
Subject: [PATCH 22/72] fix: request the tensor factors of the rules of cell
 integrals (bound method compared with a string)

---
 python/qugar/dolfinx/quadrature_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/quadrature_data.py b/python/qugar/dolfinx/quadrature_data.py
index 7a8ef72..391751a 100644
--- a/python/qugar/dolfinx/quadrature_data.py
+++ b/python/qugar/dolfinx/quadrature_data.py
@@ -69,7 +69,7 @@ def _extract_single_quadrature_data(
     """
 
     use_sum_factorization = (
-        bool(ffcx_options["sum_factorization"]) and ufl_integrand.integral_type == "cell"
+        bool(ffcx_options["sum_factorization"]) and ufl_integrand.integral_type() == "cell"
     )
 
     metadata = ufl_integrand.metadata() or {}
-- 
2.43.0


From ceed5206a8cfa6489428836023f2ab797ae65439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 23/72] fix: keep the highest degree among the integrals that
 share quadrature points

---
 python/qugar/dolfinx/quadrature_data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/qugar/dolfinx/quadrature_data.py b/python/qugar/dolfinx/quadrature_data.py
index 391751a..b5093c3 100644
--- a/python/qugar/dolfinx/quadrature_data.py
+++ b/python/qugar/dolfinx/quadrature_data.py
@@ -139,6 +139,10 @@ def extract_quadrature_data(
         for itg_data in fd.integral_data:
             for itg in itg_data.integrals:
                 quad_data = _extract_single_quadrature_data(itg, fd, ffcx_options)
-                quads_data[quad_data.name] = quad_data
+                # Rules of different degree may share their points (all the
+                # ones of unfitted boundaries do).
+                prev = quads_data.get(quad_data.name)
+                if prev is None or prev.degree < quad_data.degree:
+                    quads_data[quad_data.name] = quad_data
 
     return quads_data
-- 
2.43.0


From 7b70efa4cf9e51ebb62e7928ebf4df4e2a9da99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:54 +0000
Subject: [PATCH 24/72] fix: update every form of a list with its own
 coefficients

---
 python/qugar/dolfinx/petsc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/qugar/dolfinx/petsc.py b/python/qugar/dolfinx/petsc.py
index 93863a5..9596094 100644
--- a/python/qugar/dolfinx/petsc.py
+++ b/python/qugar/dolfinx/petsc.py
@@ -95,20 +95,21 @@ def _update_coefficients(
             The packed coefficients.
     """  # noqa: E501
 
-    def _update(form):
+    def _update(form, old_coeffs):
         if isinstance(form, CustomForm):
             return form.update_coefficients(old_coeffs)
         else:
             return list(
                 map(
-                    lambda sub_form: typing.cast(
-                        dict[tuple[IntegralType, int], npt.NDArray], _update(sub_form)
+                    lambda sub_form, sub_coeffs: typing.cast(
+                        dict[tuple[IntegralType, int], npt.NDArray], _update(sub_form, sub_coeffs)
                     ),
                     form,
+                    old_coeffs,
                 )
             )
 
-    return _update(form)
+    return _update(form, old_coeffs)
 
 
 class LinearProblem(dolfinx.fem.petsc.LinearProblem):
-- 
2.43.0


From a217b1194894679e22e580a1bc7c60deeec0c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:09 +0000
Subject: [PATCH 25/72] fix: apply the Nanson term only once for several
 subdomain identifiers

---
 python/qugar/dolfinx/boundary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/qugar/dolfinx/boundary.py b/python/qugar/dolfinx/boundary.py
index c863efc..f07a828 100644
--- a/python/qugar/dolfinx/boundary.py
+++ b/python/qugar/dolfinx/boundary.py
@@ -212,6 +212,10 @@ class ds_bdry_unf(ufl.Measure):
 
         Integration properties are taken from this Measure object.
         """
+        if isinstance(self.subdomain_id(), tuple):
+            # The integrand is multiplied by one measure of this class per
+            # identifier (see ``reconstruct``), each including the complement.
+            return super().__rmul__(integrand)
         return super().__rmul__(integrand * self._measure_complement)
 
     def reconstruct(
-- 
2.43.0


From 2ccd0aa2b1f9a3c074e810cd72a4f10a8fdf70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:55 +0000
Subject: [PATCH 26/72] fix: accept interior facet integrals that use the data
 of one side only

---
 python/qugar/dolfinx/codegeneration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index db230e1..19d4926 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -224,13 +224,14 @@ class _IntegralModifier:
             "interior_facet": set([0, 1]),
         }
         idx = _collected_indices(r"entity_local_index\[(\w+)\]")
-        if idx != target_indices[self._data.integral_type]:
+        # Interior facet integrals may access the data of one side only.
+        if not idx <= target_indices[self._data.integral_type]:
             raise ValueError(
                 "Implementation error: Invalid indices for 'entity_local_index' array."
             )
 
         idx = _collected_indices(r"quadrature_permutation\[(\w+)\]")
-        if len(idx) > 0 and idx != target_indices[self._data.integral_type]:
+        if not idx <= target_indices[self._data.integral_type]:
             raise ValueError(
                 "Implementation error: Invalid indices for 'quadrature_permutation' array."
             )
-- 
2.43.0


From 358843363429182ddaae7008e7fa8109eab2cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 27/72] fix: identify the quadrature of a loop by its weights,
 as tables may be shared with other quadratures

---
 python/qugar/dolfinx/_kernel_body.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/qugar/dolfinx/_kernel_body.py b/python/qugar/dolfinx/_kernel_body.py
index 16f0d4b..b294b39 100644
--- a/python/qugar/dolfinx/_kernel_body.py
+++ b/python/qugar/dolfinx/_kernel_body.py
@@ -206,10 +206,11 @@ class KernelBody:
             # opening ``{`` (preserves FFCx's "\n{" formatting).
             header = inside_body[lm.start():lm.end() + b_open + 1]
             body = after_header[b_open + 1:b_close - 1]
-            # Identify the quadrature this loop belongs to.
-            quad = _QUAD_NAME_IN_BODY.search(body)
+            # Identify the quadrature this loop belongs to. The weights
+            # come first: tables may be shared with other quadratures.
+            quad = _QUAD_NAME_VIA_WEIGHTS.search(body)
             if quad is None:
-                quad = _QUAD_NAME_VIA_WEIGHTS.search(body)
+                quad = _QUAD_NAME_IN_BODY.search(body)
             if quad is None:
                 raise ValueError("Quadrature name not found in loop body.")
             loops.append(
-- 
2.43.0


From 794816ff16cdf0db89a8812376b7cfe6887c4b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 28/72] fix: load the quadratures whose tables are all shared
 with other ones

---
 python/qugar/dolfinx/integral_data.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/qugar/dolfinx/integral_data.py b/python/qugar/dolfinx/integral_data.py
index 5088915..cf2d3e6 100644
--- a/python/qugar/dolfinx/integral_data.py
+++ b/python/qugar/dolfinx/integral_data.py
@@ -187,6 +187,11 @@ def extract_integral_data(
         if FE_table.element_dim != tdim:
             is_mixed_dim = True
 
+    # Quadratures whose tables are all shared with other ones.
+    for _cell_type, rule in itg_ir.expression.integrand.keys():
+        quad_data = all_quads_data[rule.id()]  # type: ignore
+        quad_FE_tables.setdefault(quad_data, [])
+
     return IntegralData(
         short_itg_name,
         itg_ids,
-- 
2.43.0


From 375d5adc5b938e95901c476f41e4c0e09117b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 29/72] fix: consider the constant elements when looking for
 mixed dimensions

---
 python/qugar/dolfinx/integral_data.py | 32 ++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/python/qugar/dolfinx/integral_data.py b/python/qugar/dolfinx/integral_data.py
index cf2d3e6..699d5ba 100644
--- a/python/qugar/dolfinx/integral_data.py
+++ b/python/qugar/dolfinx/integral_data.py
@@ -23,6 +23,7 @@ import numpy as np
 import numpy.typing as npt
 import ufl.domain
 import ufl.geometry
+from ffcx.ir.elementtables import get_modified_terminal_element
 
 from qugar.dolfinx.fe_table import FETable, extract_FE_tables
 from qugar.dolfinx.quadrature_data import QuadratureData, extract_quadrature_data
@@ -102,6 +103,33 @@ def _get_integral_dimension(
     return cell.topological_dimension()
 
 
+def _is_mixed_dim(itg_ir: ffcx.ir.representation.IntegralIR, tdim: int) -> bool:
+    """Checks if any of the elements of the integral is defined in a
+    cell whose dimension differs from the one of the integral.
+
+    All the elements are considered, and not just the ones with tables
+    in the generated code: there are no tables for constant elements.
+
+    Args:
+        itg_ir (ffcx.ir.representation.IntegralIR): FFCx Intermediate
+            Representation of the integral.
+        tdim (int): Topology dimension of the integral.
+
+    Returns:
+        bool: Whether the integral presents mixed dimensions.
+    """
+
+    for integrand in itg_ir.expression.integrand.values():
+        for node in integrand["factorization"].nodes.values():
+            mt = node.get("mt")
+            if mt is None or node.get("tr") is None:
+                continue
+            mte = get_modified_terminal_element(mt)
+            if mte is not None and mte.element.cell.topological_dimension() != tdim:
+                return True
+    return False
+
+
 class IntegralData(NamedTuple):
     """Class for storing inmutable infomation associated to an integral.
 
@@ -175,7 +203,7 @@ def extract_integral_data(
     all_quads_data = extract_quadrature_data(ufl_analysis, ffcx_options)
     FE_tables = extract_FE_tables(itg_impl, itg_ir, all_quads_data, tdim)
 
-    is_mixed_dim = False
+    is_mixed_dim = _is_mixed_dim(itg_ir, tdim)
 
     quad_FE_tables = {}
     for FE_table in FE_tables:
@@ -184,8 +212,6 @@ def extract_integral_data(
         if quad_data not in quad_FE_tables.keys():
             quad_FE_tables[quad_data] = []
         quad_FE_tables[quad_data].append(FE_table)
-        if FE_table.element_dim != tdim:
-            is_mixed_dim = True
 
     # Quadratures whose tables are all shared with other ones.
     for _cell_type, rule in itg_ir.expression.integrand.keys():
-- 
2.43.0


From 40bd82aafd8c6b25fdc89eaeb62468a8b3e52c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 30/72] fix: raise an error for custom elements, instead of
 returning silently from the kernel

---
 python/qugar/dolfinx/codegeneration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 19d4926..38ef5df 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -320,6 +320,9 @@ class _IntegralModifier:
         block_size = getattr(el, "block_size", 1)
         scalar = el.sub_elements[0] if block_size > 1 else el
         be = scalar.basix_element
+        if be.family == basix.ElementFamily.custom:
+            # They cannot be created from the parameters below.
+            raise ValueError("Custom elements are not supported.")
         params = (
             int(be.family),
             int(be.cell_type),
-- 
2.43.0


From 97c9465f050ebb1d8c57fd2e7e8b143540307f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:55 +0000
Subject: [PATCH 31/72] fix: request the scratch memory of all the quadratures
 at once (a later request may move it)

---
 python/qugar/dolfinx/codegeneration.py | 41 ++++++++++++++++----------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index 38ef5df..a8d4b27 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -435,6 +435,8 @@ class _IntegralModifier:
         is_interior_facet = self._data.integral_type == "interior_facet"
 
         call_code = ""
+        groups_by_quad: list[tuple[str, list]] = []
+        scratch_terms: list[str] = []
         for quad_data, FE_tables in self._data.quad_data_FE_tables.items():
             quad_name = quad_data.name
 
@@ -485,10 +487,11 @@ class _IntegralModifier:
             # agree on both sides).
             #
             # All buffers (basix blocks + per-table repack buffers when
-            # vs > 1) live in a SINGLE thread-local scratch obtained from
-            # the shim. Using the stack via VLAs overflows the thread's
-            # stack for higher-degree 3D forms (e.g. P3 hex), so we offset
-            # into the scratch instead.
+            # vs > 1) live in a SINGLE thread-local scratch, shared by all
+            # the quadratures, obtained from the shim with one request
+            # (another one may move it). Using the stack via VLAs
+            # overflows the thread's stack for higher-degree 3D forms
+            # (e.g. P3 hex), so we offset into the scratch instead.
             varying = [t for t in FE_tables if not t.is_constant_for_pts()]
 
             groups: dict[tuple, list[tuple[FETable, dict]]] = {}
@@ -499,7 +502,6 @@ class _IntegralModifier:
             # First pass: gather per-group metadata and the list of scratch
             # size terms.
             group_meta = []
-            scratch_terms: list[str] = []
             for gi, (params, items) in enumerate(groups.items()):
                 info0 = items[0][1]
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
@@ -524,20 +526,27 @@ class _IntegralModifier:
                             scratch_terms.append(
                                 f"{n_pts_name} * {table.funcs}"
                             )
+            groups_by_quad.append((quad_name, group_meta))
+
+        scratch_var = "scratch"
+        if scratch_terms:
+            total = " + ".join(scratch_terms)
+            call_code += (
+                f"{dtype_str}* {scratch_var} = "
+                f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
+            )
 
-            scratch_var = f"scratch_{quad_name}"
-            if scratch_terms:
-                total = " + ".join(scratch_terms)
-                call_code += (
-                    f"{dtype_str}* {scratch_var} = "
-                    f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
-                )
+        # Running offset (sum of size expressions already consumed).
+        offsets: list[str] = []
 
-            # Running offset (sum of size expressions already consumed).
-            offsets: list[str] = []
+        def _cur_offset() -> str:
+            return " + ".join(offsets) if offsets else "0"
 
-            def _cur_offset() -> str:
-                return " + ".join(offsets) if offsets else "0"
+        for quad_name, group_meta in groups_by_quad:
+            points_name = f"points_{quad_name}"
+            points_side1_name = f"points_side1_{quad_name}"
+            points_facet_name = f"points_facet_{quad_name}"
+            n_pts_name = f"n_pts_Q{quad_name}"
 
             for gd in group_meta:
                 (gi, params, items, gdim, ndofs, vs, maxnd, nderiv,
-- 
2.43.0


From c8e2597ba0fdef59a3ac8a975a343d0dc4f491f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:10 +0000
Subject: [PATCH 32/72] fix: points and sides of tables that only look constant
 at the static points (rules of one point)

---
 python/qugar/dolfinx/_kernel_body.py   |  19 +++--
 python/qugar/dolfinx/codegeneration.py |  27 +++----
 python/qugar/dolfinx/fe_table.py       | 103 ++++++++++++++++---------
 3 files changed, 91 insertions(+), 58 deletions(-)

diff --git a/python/qugar/dolfinx/_kernel_body.py b/python/qugar/dolfinx/_kernel_body.py
index b294b39..095e2ee 100644
--- a/python/qugar/dolfinx/_kernel_body.py
+++ b/python/qugar/dolfinx/_kernel_body.py
@@ -29,9 +29,9 @@ the variant kernels with a fluent chain such as::
 
     (body.copy()
          .erase_static_declarations()
-         .rewrite_table_accesses()
          .dynamic_loop_bounds()
          .inline_pre_loop_into_loops()
+         .rewrite_table_accesses()
          .substitute_normals(offsets)
          .render(suffix="_custom"))
 
@@ -371,13 +371,15 @@ class KernelBody:
 
         ``constant_for_pts`` tables keep their 4-D static-array access
         (their declarations are re-emitted by the caller-side codegen).
+
+        The accesses depend on the loop, so it must be called after
+        :meth:`inline_pre_loop_into_loops`.
         """
 
         bracket = r"\[\s*(\w+\[\d+\]|[^\]]*)\s*\]\s*"
         fe_re = re.compile(r"FE([\w|\_]+)\s*" + bracket * 4)
-        has_perms = self.integral_type == "interior_facet"
 
-        def transform(text: str) -> str:
+        def transform(text: str, quad_name: str) -> str:
             out: list[str] = []
             pos = 0
             for m in fe_re.finditer(text):
@@ -389,18 +391,15 @@ class KernelBody:
                 else:
                     indices = tuple(m.group(i) for i in range(2, 6))
                     out.append(text[pos: m.start()])
-                    out.append(table.create_new_access_code(indices, has_perms))
+                    out.append(table.create_new_access_code(indices, quad_name))
                 pos = m.end()
             out.append(text[pos:])
             return "".join(out)
 
-        # Apply to the pre-loop band and every loop body. Loop headers
-        # never contain FE accesses; post_text is just the function's
-        # closing '}' so it doesn't either.
-        if self.loops:
-            self.loops[0].pre_text = transform(self.loops[0].pre_text)
+        # Apply to every loop body. Loop headers never contain FE accesses;
+        # post_text is just the function's closing '}' so it doesn't either.
         for loop in self.loops:
-            loop.body = transform(loop.body)
+            loop.body = transform(loop.body, loop.quad_name)
         return self
 
     def dynamic_loop_bounds(self) -> "KernelBody":
diff --git a/python/qugar/dolfinx/codegeneration.py b/python/qugar/dolfinx/codegeneration.py
index a8d4b27..2026a27 100644
--- a/python/qugar/dolfinx/codegeneration.py
+++ b/python/qugar/dolfinx/codegeneration.py
@@ -480,11 +480,9 @@ class _IntegralModifier:
 
             # On-the-fly tabulation + repack, grouped per element so each
             # element is tabulated once (one basix block feeds all of its
-            # component/derivative tables). For interior-facet integrals
-            # with perm>1 tables, two basix blocks are produced (one per
-            # side) and perm>1 tables get an FE..[2] array of per-side
-            # buffers; perm<=1 tables stay single-buffer (their values
-            # agree on both sides).
+            # component/derivative tables). For interior-facet integrals,
+            # two basix blocks are produced (one per side) and tables get
+            # an FE..[2] array of per-side buffers.
             #
             # All buffers (basix blocks + per-table repack buffers when
             # vs > 1) live in a SINGLE thread-local scratch, shared by all
@@ -507,8 +505,7 @@ class _IntegralModifier:
                 gdim, ndofs, vs = info0["gdim"], info0["ndofs"], info0["vs"]
                 maxnd = max(info["maxnd"] for _t, info in items)
                 nderiv = math.comb(maxnd + gdim, gdim)
-                any_perm = is_interior_facet and any(
-                    t.permutations > 1 for t, _ in items)
+                any_perm = any(t.two_sided for t, _ in items)
                 blk_size_expr = (
                     f"{nderiv} * {n_pts_name} * {ndofs} * {vs}"
                 )
@@ -522,15 +519,19 @@ class _IntegralModifier:
                 for table, info in items:
                     if info["vs"] > 1:
                         scratch_terms.append(f"{n_pts_name} * {table.funcs}")
-                        if is_interior_facet and table.permutations > 1:
+                        if table.two_sided:
                             scratch_terms.append(
                                 f"{n_pts_name} * {table.funcs}"
                             )
             groups_by_quad.append((quad_name, group_meta))
 
+        tables = [t for items in self._data.quad_data_FE_tables.values() for t in items]
         scratch_var = "scratch"
         if scratch_terms:
-            total = " + ".join(scratch_terms)
+            # The first point of every table must be readable, even if
+            # there are no points: unused expressions may access to it.
+            max_funcs = max(table.funcs for table in tables)
+            total = " + ".join(scratch_terms + [f"{max_funcs}"])
             call_code += (
                 f"{dtype_str}* {scratch_var} = "
                 f"qugar_get_scratch_{suffix}((long)({total}));\n\n"
@@ -591,7 +592,7 @@ class _IntegralModifier:
                 for table, info in items:
                     funcs = table.funcs
                     didx, vaxis = info["didx"], info["vaxis"]
-                    two_sided = is_interior_facet and table.permutations > 1
+                    two_sided = table.two_sided
 
                     if vs == 1:
                         # The basix block's layout already matches the
@@ -718,14 +719,14 @@ class _IntegralModifier:
 
         # Apply the custom-variant transformation pipeline on the
         # structured body. Order matters:
-        #   erase_static -> rewrite_table_accesses -> dynamic_loop_bounds
-        #   -> inline_pre_loop_into_loops -> substitute_normals.
+        #   erase_static -> dynamic_loop_bounds -> inline_pre_loop_into_loops
+        #   -> rewrite_table_accesses -> substitute_normals.
         body = (
             self._body.copy()
             .erase_static_declarations()
-            .rewrite_table_accesses()
             .dynamic_loop_bounds()
             .inline_pre_loop_into_loops()
+            .rewrite_table_accesses()
             .substitute_normals(self._get_constant_normal_offsets())
         )
 
diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index aeb2499..db96bee 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -19,6 +19,7 @@ if not has_FEniCSx:
 import hashlib
 import re
 
+import basix
 import numpy as np
 from basix.ufl import _BasixElement as BasixElement
 from ffcx.ir.elementtables import get_modified_terminal_element
@@ -208,17 +209,41 @@ class FETable:
         Therefore, from the point of view of custom quadratures, the
         values of these tables will not change.
 
+        FFCx decides the type from the values at the points of the
+        static quadrature, that may agree (they always do if there is
+        only one point) for functions that are not constant. Thus, the
+        functions are also checked.
+
         Returns:
             bool: Whether the table is constant for all the points.
         """
-        n_quad_pts = self._quad_data.rule.points.shape[0]  # type: ignore
-        return n_quad_pts > 1 and self._table_type in [
+        if self._avg is not None:
+            return True
+        return self._constant and self._table_type in [
             "fixed",
             "piecewise",
             "zeros",
             "ones",
         ]
 
+    def _are_functions_constant(self) -> bool:
+        """Checks if the functions (or derivatives) of the table are
+        constant in the cell.
+
+        Returns:
+            bool: Whether the functions are constant.
+        """
+        vertices = basix.geometry(self._element.cell_type)
+        n_vertices = vertices.shape[0]
+        # Points in general position inside the cell.
+        coefs = np.array(
+            [[1.0 + ((3 * i + 2) * (j + 1) ** 2) % 7 for j in range(n_vertices)] for i in range(6)]
+        )
+        points = (coefs / coefs.sum(axis=1, keepdims=True)) @ vertices
+        element = self._element.get_component_element(self._component)[0]
+        values = element.tabulate(sum(self._derivatives), points)[basix.index(*self._derivatives)]
+        return bool(np.allclose(values, values[0], rtol=1.0e-9, atol=1.0e-9))
+
     @property
     def FE_id(self) -> int:
         """Returns the id of the table."""
@@ -379,6 +404,7 @@ class FETable:
         self._element = element
         elem_dim = element.cell.topological_dimension()
         self._set_derivatives(elem_dim)
+        self._constant = self._are_functions_constant()
 
     def _set_derivatives(self, elem_dim: int) -> None:
         """Sets the derivatives of the table.
@@ -389,7 +415,16 @@ class FETable:
         if not hasattr(self, "_derivatives") or all(der == 0 for der in self._derivatives):
             self._derivatives = (0,) * elem_dim
 
-    def create_new_access_code(self, indices: tuple[str, ...], has_permutations: bool) -> str:
+    @property
+    def two_sided(self) -> bool:
+        """Whether the (dynamic) values of the table may differ in both
+        sides of the facet.
+
+        The points do for all interior facets, even if the permutations
+        of the static points do not change the values of the table."""
+        return self._integral_type == "interior_facet"
+
+    def create_new_access_code(self, indices: tuple[str, ...], quad_name: str) -> str:
         """Transforms the 4 indices access to the statically defined FE
         4D table to the access to a plain 1D array (for values
         dynamically loaded from a custom coefficients array passed to a
@@ -400,15 +435,14 @@ class FETable:
         the new ``FE_C0_D10_Q48f`` is the flattened dynamic version of
         the original array.
 
-        In the case the table presents permutations (for interior
-        facet integrals), the access will be something like
-        ``FE_C0_D10_Q48f[i][index]``.
+        For interior facet integrals, the access will be something like
+        ``FE_C0_D10_Q48f[i][index]``, where ``i`` is the side.
 
         Args:
             indices (tuple[str]): Four indices for accessing the
                 4-dimensional FE table.
-            has_permutations (bool): Flat indicating if permutations
-                must be considered (mostly, for interior facets).
+            quad_name (str): Name of the quadrature of the loop in which
+                the table is accessed.
 
         Returns:
             str: Generated C code for accessing the dynamic array.
@@ -416,38 +450,37 @@ class FETable:
 
         assert not self.is_constant_for_pts()
 
-        perm_index = None
-        if has_permutations and indices[0] != "0":
-            assert self._permutations > 1
-            match = re.search(r"quadrature_permutation\[(\d+)\]", indices[0])
-            assert match
-            perm_index = int(match.group(1))
-
-        def transform_index(index: str) -> int | str:
-            index = index.replace(" ", "")
-            if index.isdecimal():
-                index = int(index)  # type: ignore
-            elif not index.isalpha() and index not in ["iq", "ic"]:
-                index = "(" + index + ")"
-            return index
+        new_access = self._name
 
-        terms = []
+        if self.two_sided:
+            # Tables that do not depend on the permutation still depend
+            # on the facet.
+            match = re.search(r"quadrature_permutation\[(\d+)\]", indices[0])
+            if match is None:
+                match = re.search(r"entity_local_index\[(\d+)\]", indices[1])
+            if match is None:
+                raise ValueError(f"The side of the facet in which {self._name} is used is unknown.")
+            new_access += f"[{match.group(1)}]"
 
         # Permutation and entity indices are discarded.
-        offsets = [f"{self._funcs} * ", ""]
-        for index, offset in zip(indices[2:], offsets):
-            new_index = transform_index(index)
-            if new_index != 0:
-                terms.append(f"{offset}{index}")
-
-        plain_index = " + ".join(terms)
+        point = indices[2].strip()
+        if quad_name != self.quad_name:
+            # Expressions before the loops (that this loop does not use)
+            # are the only ones using tables of other quadratures.
+            if point != "0":
+                raise ValueError(f"Table {self._name} is shared between different quadratures.")
+        elif point == "0":
+            # FFCx considers the table as constant (see
+            # `is_constant_for_pts`), but it is not.
+            point = "iq"
 
-        new_access = f"{self._name}"
-        if perm_index is not None:
-            new_access += f"[{perm_index}]"
-        new_access += f"[{plain_index}]"
+        terms = []
+        if point != "0":
+            terms.append(f"{self._funcs} * ({point})")
+        if indices[3].strip() != "0":
+            terms.append(f"{indices[3]}")
 
-        return new_access
+        return new_access + "[" + (" + ".join(terms) or "0") + "]"
 
 
 def _sort_FE_tables(FE_tables: list[FETable]) -> list[FETable]:
-- 
2.43.0


From bcd27f4064827bdc76fc5bc2e404034facace272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:07 +0000
Subject: [PATCH 33/72] fix: take the component and derivatives of a table from
 its element (its name may be of another one with the same values)

---
 python/qugar/dolfinx/fe_table.py | 34 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/python/qugar/dolfinx/fe_table.py b/python/qugar/dolfinx/fe_table.py
index db96bee..0882536 100644
--- a/python/qugar/dolfinx/fe_table.py
+++ b/python/qugar/dolfinx/fe_table.py
@@ -391,17 +391,27 @@ class FETable:
             else:
                 assert False, f"Invalid finite element option: {opt}."
 
-    def _set_element(self, element: BasixElement) -> None:
-        """Sets the element associated to the table.
+    def _set_element(
+        self, element: BasixElement, component: int, derivatives: tuple[int, ...]
+    ) -> None:
+        """Sets the element associated to the table, together with its
+        component and derivatives.
 
         This method is used for setting the element after the table
-        has been created. If not previously set, it also sets the
-        derivates of the table to 0.
+        has been created. The component and derivatives encoded in the
+        name of the table may belong to a different element: FFCx uses
+        a single table for the ones with the same values.
 
         Args:
             element (BasixElement): Element associated to the table.
+            component (int): Component of the element.
+            derivatives (tuple[int, ...]): Order of the derivatives
+                along every parametric direction. It may be empty if
+                no derivative is computed.
         """
         self._element = element
+        self._component = int(component)
+        self._derivatives = tuple(int(der) for der in derivatives)
         elem_dim = element.cell.topological_dimension()
         self._set_derivatives(elem_dim)
         self._constant = self._are_functions_constant()
@@ -518,21 +528,21 @@ def _sort_FE_tables(FE_tables: list[FETable]) -> list[FETable]:
 
 def _build_table_name_to_element_map(
     ir_itg: IntegralIR,
-) -> dict[str, BasixElement]:
-    """Build a (C-code table name -> Basix element) map directly from
-    the FFCx IR factorization graph.
+) -> dict[str, tuple[BasixElement, int, tuple[int, ...]]]:
+    """Build a (C-code table name -> Basix element, component, and
+    derivatives) map directly from the FFCx IR factorization graph.
 
     In FFCx 0.10.0 each terminal node in the factorization graph
     already carries both its ``UniqueTableReferenceT`` (``node["tr"]``,
     whose ``.name`` matches the C-code table name) and its
     ``ModifiedTerminal`` (``node["mt"]``, from which the originating
     Basix element is recovered via ``get_modified_terminal_element``).
-    Walk the graph and harvest the (table name -> element) pairs
-    directly, instead of evaluating each candidate element at the
+    Walk the graph and harvest the (table name -> element, component,
+    and derivatives) pairs directly, instead of evaluating each candidate element at the
     table's quadrature points and value-matching against the C-code
     table values.
     """
-    result: dict[str, BasixElement] = {}
+    result: dict[str, tuple[BasixElement, int, tuple[int, ...]]] = {}
     for _key, integrand in ir_itg.expression.integrand.items():
         for node in integrand["factorization"].nodes.values():
             tr = node.get("tr")
@@ -542,7 +552,7 @@ def _build_table_name_to_element_map(
             mte = get_modified_terminal_element(mt)
             if mte is None:
                 continue
-            result[tr.name] = mte.element
+            result[tr.name] = (mte.element, mte.fc, mte.local_derivatives)
     return result
 
 
@@ -599,6 +609,6 @@ def extract_FE_tables(
         for m in re.finditer(FETable.pattern, code)
     ]
     for FE_table in FE_tables:
-        FE_table._set_element(table_to_element[FE_table.name])
+        FE_table._set_element(*table_to_element[FE_table.name])
 
     return _sort_FE_tables(FE_tables)
-- 
2.43.0


From 3a765084abe3929e3fc3fbdef5cccdb3ab96f52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 34/72] fix: compare tensor indices lexicographically from the
 last component

---
 cpp/qugar/tensor_index_tp.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index d2c7a22..a14a25c 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -119,8 +119,8 @@ template<int dim> bool TensorIndexTP<dim>::operator<(const TensorIndexTP<dim> &r
     return false;
   } else {
     for (int dir = dim - 1; dir > 0; --dir) {
-      if (rhs(dir) < this->operator()(dir)) {
-        return false;
+      if (this->operator()(dir) != rhs(dir)) {
+        return this->operator()(dir) < rhs(dir);
       }
     }
     return this->operator()(0) < rhs(0);
-- 
2.43.0


From 67ddf37497c790636bc7d9811050ec08c7c6517a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 35/72] fix: do not visit any index of an empty range

---
 cpp/qugar/tensor_index_tp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/qugar/tensor_index_tp.cpp b/cpp/qugar/tensor_index_tp.cpp
index a14a25c..7dd6a4b 100644
--- a/cpp/qugar/tensor_index_tp.cpp
+++ b/cpp/qugar/tensor_index_tp.cpp
@@ -209,6 +209,10 @@ template<int dim> std::size_t TensorIndexRangeTP<dim>::size() const
 
 template<int dim> auto TensorIndexRangeTP<dim>::cbegin() const -> Iterator
 {
+  if (this->size() == 0) {
+    // Empty range: there is nothing to visit.
+    return this->cend();
+  }
   return Iterator(this->lower_bound_, this->lower_bound_, this->upper_bound_);
 }
 
-- 
2.43.0


From b593fae05988285acd7292f279a6b4bed79767e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 36/72] fix: use 64 bits for flat indices in large
 tensor-product grids

---
 cpp/include/qugar/tensor_index_tp.hpp | 5 ++++-
 cpp/qugar/cart_grid_tp.cpp            | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/include/qugar/tensor_index_tp.hpp b/cpp/include/qugar/tensor_index_tp.hpp
index b068361..56c2792 100644
--- a/cpp/include/qugar/tensor_index_tp.hpp
+++ b/cpp/include/qugar/tensor_index_tp.hpp
@@ -137,7 +137,10 @@ public:
     requires(aux_dim == dim && dim > 0)
   TensorIndexTP(std::int64_t flat_index, const TensorIndexTP<dim> &size)
   {
-    auto total_size = static_cast<std::int64_t>(prod(size.as_Vector()));
+    std::int64_t total_size{ 1 };
+    for (int dir = 0; dir < dim; ++dir) {
+      total_size *= static_cast<std::int64_t>(size(dir));
+    }
 
     // NOLINTNEXTLINE (readability-simplify-boolean-expr)
     assert(0 <= flat_index && flat_index < total_size);
diff --git a/cpp/qugar/cart_grid_tp.cpp b/cpp/qugar/cart_grid_tp.cpp
index 1525a2b..fca4eba 100644
--- a/cpp/qugar/cart_grid_tp.cpp
+++ b/cpp/qugar/cart_grid_tp.cpp
@@ -218,7 +218,7 @@ template<int dim> std::vector<std::int64_t> CartGridTP<dim>::get_boundary_cells(
   cells.reserve(static_cast<std::size_t>(prod(n_cells_facet)));
 
   for (const auto cell_tid : TensorIndexRangeTP<dim>(tid_0, tid_1)) {
-    cells.push_back(static_cast<int>(cell_tid.flat(n_cells_dir)));
+    cells.push_back(cell_tid.flat(n_cells_dir));
   }
 
   return cells;
-- 
2.43.0


From 73f1c1d3b44fe8655e927d4667501fe148cb6567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:29 +0000
Subject: [PATCH 37/72] fix: locate points between two cells in the lowest one,
 as documented

---
 cpp/qugar/cart_grid_tp.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/cpp/qugar/cart_grid_tp.cpp b/cpp/qugar/cart_grid_tp.cpp
index fca4eba..d3930ca 100644
--- a/cpp/qugar/cart_grid_tp.cpp
+++ b/cpp/qugar/cart_grid_tp.cpp
@@ -145,11 +145,9 @@ template<int dim> std::int64_t CartGridTP<dim>::get_cell_id(const PointType &poi
     const auto it = std::prev(std::upper_bound(begin, breaks.cend(), coord + tolerance.value()));
 
     auto dist = static_cast<int>(std::distance(begin, it));
-    if (tolerance.equal(coord, *it)) {
-      if (dist == n_spans) {
-        // Point at last knot.
-        --dist;
-      }
+    if (tolerance.equal(coord, *it) && 0 < dist) {
+      // Point at the boundary of two cells (or at last knot): the lowest one is chosen.
+      --dist;
     }
     // NOLINTNEXTLINE (readability-simplify-boolean-expr)
     assert(0 <= dist && dist < n_spans);
-- 
2.43.0


From eff3d71d05f9dbb9d2b81a7d31ad515d187428e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:01 +0000
Subject: [PATCH 38/72] fix: build an orthonormal system around axes close to
 the x-axis

---
 cpp/qugar/affine_transf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/affine_transf.cpp b/cpp/qugar/affine_transf.cpp
index 727d533..d3feb33 100644
--- a/cpp/qugar/affine_transf.cpp
+++ b/cpp/qugar/affine_transf.cpp
@@ -143,7 +143,7 @@ std::pair<Vector<real, 3>, Vector<real, 3>> create_reference_system_around_axis(
 
     axis_x = cross_product(guess_axis_y, axis_z);
     axis_x /= norm(axis_x);
-    axis_y = cross_product(axis_z, axis_y);
+    axis_y = cross_product(axis_z, axis_x);
   }
 
   return std::make_pair(axis_x, axis_y);
-- 
2.43.0


From 5543df9222d9f8cfb0e5eeede82acbb6245698e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:36 +0000
Subject: [PATCH 39/72] fix: translate the points, not the weights, of 3D
 tensor-product quadratures

---
 cpp/qugar/quadrature.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/quadrature.cpp b/cpp/qugar/quadrature.cpp
index cc06ecd..9b70727 100644
--- a/cpp/qugar/quadrature.cpp
+++ b/cpp/qugar/quadrature.cpp
@@ -258,14 +258,14 @@ std::shared_ptr<Quadrature<dim>> Quadrature<dim>::create_tp_quadrature(const std
     const real min_2 = domain.min(2);
 
     for (int k = 0; k < n_2; ++k) {
-      const auto p_k = QuadType::get_abscissa(n_2, k) * len_2;
-      const auto w_k = min_2 + (QuadType::get_weight(n_2, k) * len_2);
+      const auto p_k = min_2 + (QuadType::get_abscissa(n_2, k) * len_2);
+      const auto w_k = QuadType::get_weight(n_2, k) * len_2;
       for (int j = 0; j < n_1; ++j) {
-        const auto p_j = QuadType::get_abscissa(n_1, j) * len_1;
-        const auto w_j = min_1 + (QuadType::get_weight(n_1, j) * len_1);
+        const auto p_j = min_1 + (QuadType::get_abscissa(n_1, j) * len_1);
+        const auto w_j = QuadType::get_weight(n_1, j) * len_1;
         for (int i = 0; i < n_0; ++i) {
-          const auto p_i = QuadType::get_abscissa(n_0, i) * len_0;
-          const auto w_i = min_0 + (QuadType::get_weight(n_0, i) * len_0);
+          const auto p_i = min_0 + (QuadType::get_abscissa(n_0, i) * len_0);
+          const auto w_i = QuadType::get_weight(n_0, i) * len_0;
           *it_p++ = Point<3>(p_i, p_j, p_k);
           *it_w++ = w_i * w_j * w_k;
         }
-- 
2.43.0


From 44d6f08410d38a93018f8601455a620d0489e9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 40/72] fix: derivatives of monomials of degree zero along a
 direction

---
 cpp/qugar/monomials_tp.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index d2daa82..52f84e0 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -286,7 +286,9 @@ auto MonomialsTP<dim, range>::horner_der(const Point<dim, T> &point,
     val = val * x + at(beta, i);
     der = der * x + static_cast<real>(i) * at(beta, i)(0);
   }
-  val = val * x + beta.front();
+  if (last_degree > 0) {
+    val = val * x + beta.front();
+  }
 
   return add_component(val, dim, der);
 }
-- 
2.43.0


From 947e24d80ddfadcdbf98ec509e0cf73bb866524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 41/72] fix: add up the coefficients of monomials at their
 upper facets

---
 cpp/qugar/monomials_tp.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index 52f84e0..9738815 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -206,20 +206,20 @@ std::shared_ptr<MonomialsTP<dim - 1, range>> MonomialsTP<dim, range>::extract_fa
 
   const auto new_order = TensorSizeTP<dim - 1>(remove_component(this->get_order().as_Vector(), const_dir));
 
-  std::vector<CoefsType> new_coefs(static_cast<std::size_t>(new_order.size()));
+  std::vector<CoefsType> new_coefs(
+    static_cast<std::size_t>(new_order.size()), CoefsType{ qugar::numbers::zero });
 
-  TensorIndexTP<dim> lower_bound(0);
+  // The value of the monomials is 1 at the end of the constant direction: all their coefficients are added up.
+  // At its start, only the one of degree 0 remains.
   TensorIndexTP<dim> upper_bound(this->get_order());
   if (side == 0) {
     upper_bound(const_dir) = 1;
-  } else {
-    lower_bound(const_dir) = this->get_order(const_dir) - 1;
   }
-  const TensorIndexRangeTP<dim> indices_range(lower_bound, upper_bound);
+  const TensorIndexRangeTP<dim> indices_range(TensorIndexTP<dim>(0), upper_bound);
 
-  auto new_coef = new_coefs.begin();
   for (const auto &tid : indices_range) {
-    *new_coef++ = at(this->coefs_, tid.flat(this->get_order()));
+    const TensorIndexTP<dim - 1> sub_tid(remove_component(tid.as_Vector(), const_dir));
+    at(new_coefs, sub_tid.flat(new_order)) += at(this->coefs_, tid.flat(this->get_order()));
   }
 
   return std::make_shared<MonomialsTP<dim - 1, range>>(new_order, new_coefs);
-- 
2.43.0


From db7976d54dbab4a74e1dd172455cd0c4d613ebe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 42/72] fix: do not add Bezier coefficients to the previous
 contents of the output

---
 cpp/qugar/monomials_tp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/monomials_tp.cpp b/cpp/qugar/monomials_tp.cpp
index 9738815..022adfb 100644
--- a/cpp/qugar/monomials_tp.cpp
+++ b/cpp/qugar/monomials_tp.cpp
@@ -302,7 +302,7 @@ void MonomialsTP<dim, range>::transform_coefs_to_Bezier(const MonomialsTP<dim, r
 
   assert(static_cast<std::size_t>(order.size()) == monomials_coefs.size());
 
-  bzr_coefs.resize(monomials_coefs.size(), CoefsType{ qugar::numbers::zero });
+  bzr_coefs.assign(monomials_coefs.size(), CoefsType{ qugar::numbers::zero });
   auto mon_coef = monomials_coefs.cbegin();
 
   const auto get_binomial = [](const int degree) {
-- 
2.43.0


From 36052bd2636d98bf9e8dc52d0f19762a0a07a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:35 +0000
Subject: [PATCH 43/72] fix: honour the choice of nodes of the Lagrange
 polynomials

---
 cpp/qugar/impl_reparam_mesh.cpp | 4 ++--
 cpp/qugar/lagrange_tp_utils.cpp | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/qugar/impl_reparam_mesh.cpp b/cpp/qugar/impl_reparam_mesh.cpp
index 1203804..16cbf38 100644
--- a/cpp/qugar/impl_reparam_mesh.cpp
+++ b/cpp/qugar/impl_reparam_mesh.cpp
@@ -185,7 +185,7 @@ void ImplReparamMesh<dim, range>::orient_cells_positively(const std::vector<int>
   const TensorSizeTP<dim> order(this->order_);
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
   evaluate_Lagrange_derivative<dim>(mid_pt, order, chebyshev, derivatives);
@@ -233,7 +233,7 @@ void ImplReparamMesh<dim, range>::orient_levelset_cells_positively(const std::ve
   std::vector<real> basis;
   Vector<std::vector<real>, dim> derivatives;
 
-  constexpr bool chebyshev = false;
+  const bool chebyshev = this->use_Chebyshev();
 
   const Point<dim> mid_pt{ numbers::half };
 
diff --git a/cpp/qugar/lagrange_tp_utils.cpp b/cpp/qugar/lagrange_tp_utils.cpp
index bcc4a9a..adcc51d 100644
--- a/cpp/qugar/lagrange_tp_utils.cpp
+++ b/cpp/qugar/lagrange_tp_utils.cpp
@@ -45,9 +45,9 @@ void evaluate_Lagrange_basis_1D(const real point, const int order, const bool ch
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
@@ -71,9 +71,9 @@ void evaluate_Lagrange_basis_der_1D(const real point, const int order, const boo
 
   std::function<real(const int)> get_coord;
   if (chebyshev) {
-    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
-  } else {
     get_coord = [order](const int ind) -> real { return ::algoim::bernstein::modifiedChebyshevNode(ind, order); };
+  } else {
+    get_coord = [order](const int ind) -> real { return static_cast<real>(ind) / (order - 1); };
   }
 
   for (int i = 0; i < order; ++i) {
-- 
2.43.0


From 42abd6424e16d8f0acd798c1cec45c54e7234714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 44/72] fix: Hessian of the cylinder, which ignored the
 direction of its axis

---
 cpp/qugar/primitive_funcs_lib.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index 8a36c3a..d4a491e 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -226,7 +226,6 @@ template<typename T> Vector<T, 3> Cylinder::grad_(const Point<3, T> &point) cons
 
 template<typename T> auto Cylinder::hessian_(const Point<3, T> & /*point*/) const -> Hessian<T>
 {
-  return Hessian<T>{ numbers::two, numbers::zero, numbers::zero, numbers::two, numbers::zero, numbers::two };
   Hessian<T> hess;
   for (int i = 0, ij = 0; i < 3; ++i) {
     for (int j = i; j < 3; ++j, ++ij) {
-- 
2.43.0


From 2a7d3a5173a43702514a983a7d181673688b200d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 45/72] fix: gradient and Hessian of the annulus

---
 cpp/qugar/primitive_funcs_lib.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/primitive_funcs_lib.cpp b/cpp/qugar/primitive_funcs_lib.cpp
index d4a491e..c936935 100644
--- a/cpp/qugar/primitive_funcs_lib.cpp
+++ b/cpp/qugar/primitive_funcs_lib.cpp
@@ -493,13 +493,15 @@ template<typename T> Vector<T, 2> Annulus::grad_(const Point<2, T> &point) const
   const Point<2, T> diff = point - this->center_;
   const auto Ri2 = this->inner_radius_ * this->inner_radius_;
   const auto Ro2 = this->outer_radius_ * this->outer_radius_;
-  return (numbers::four * sqrnorm(diff) - Ri2 - Ro2) * diff;
+  return (numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2)) * diff;
 }
 
 template<typename T> auto Annulus::hessian_(const Point<2, T> &point) const -> Hessian<T>
 {
   const Point<2, T> diff = point - this->center_;
-  const auto aux = numbers::four * sqrnorm(diff);
+  const auto Ri2 = this->inner_radius_ * this->inner_radius_;
+  const auto Ro2 = this->outer_radius_ * this->outer_radius_;
+  const auto aux = numbers::four * sqrnorm(diff) - numbers::two * (Ri2 + Ro2);
   return Hessian<T>{ aux + (numbers::eight * diff(0) * diff(0)),
     numbers::eight * diff(0) * diff(1),
     aux + (numbers::eight * diff(1) * diff(1)) };
-- 
2.43.0


From 40cbf31fe2652bd680e185eb23ac79cf5c205172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 46/72] fix: yz component of the Hessian of 3D dim-linear
 functions

---
 cpp/qugar/impl_funcs_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_funcs_lib.cpp b/cpp/qugar/impl_funcs_lib.cpp
index 75162c4..56d0f75 100644
--- a/cpp/qugar/impl_funcs_lib.cpp
+++ b/cpp/qugar/impl_funcs_lib.cpp
@@ -170,7 +170,7 @@ template<int dim> template<typename T> auto DimLinear<dim>::hessian_(const Point
       (cfs[0] + cfs[3] - cfs[1] - cfs[2]) * (one - point(2)) + (cfs[4] + cfs[7] - cfs[5] - cfs[6]) * point(2),
       (cfs[0] + cfs[5] - cfs[1] - cfs[4]) * (one - point(1)) + (cfs[2] + cfs[7] - cfs[3] - cfs[6]) * point(1),
       zero,
-      ((cfs[0] + cfs[7] - cfs[2] - cfs[5]) * (one - point(0)) + (cfs[1] + cfs[6] - cfs[3] - cfs[4]) * point(0)),
+      ((cfs[0] + cfs[6] - cfs[2] - cfs[4]) * (one - point(0)) + (cfs[1] + cfs[7] - cfs[3] - cfs[5]) * point(0)),
       zero };
   }
   // NOLINTEND (cppcoreguidelines-avoid-magic-numbers)
-- 
2.43.0


From 5e31310e814942f9fc0f3b4cc84bd84971917fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 47/72] fix: xz component of the Hessian of the Schoen gyroid

---
 cpp/qugar/tpms_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/tpms_lib.cpp b/cpp/qugar/tpms_lib.cpp
index b96d270..9fd8cf0 100644
--- a/cpp/qugar/tpms_lib.cpp
+++ b/cpp/qugar/tpms_lib.cpp
@@ -123,7 +123,7 @@ template<int dim> template<typename T> auto Schoen<dim>::hessian_(const Point<3,
              * (-sin(pi_2mnq_point(1)) * cos(pi_2mnq_point(2)) - sin(pi_2mnq_point(0)) * cos(pi_2mnq_point(1)));
 
   if constexpr (dim == 3) {
-    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-cos(pi_2mnq_point(2)) * sin(pi_2mnq_point(2)));
+    hess(2) = pi_2mnq(0) * pi_2mnq(2) * (-cos(pi_2mnq_point(2)) * sin(pi_2mnq_point(0)));
     hess(4) = pi_2mnq(1) * pi_2mnq(2) * (-cos(pi_2mnq_point(1)) * sin(pi_2mnq_point(2)));
     // NOLINTNEXTLINE (cppcoreguidelines-avoid-magic-numbers)
     hess(5) = pi_2mnq(2) * pi_2mnq(2)
-- 
2.43.0


From 8c0e101cc16f24aab475bd2dc84d5939e9354491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:35 +0000
Subject: [PATCH 48/72] fix: y component of the gradient of the Schoen I-WP
 surface

---
 cpp/qugar/tpms_lib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/tpms_lib.cpp b/cpp/qugar/tpms_lib.cpp
index 9fd8cf0..a2344a6 100644
--- a/cpp/qugar/tpms_lib.cpp
+++ b/cpp/qugar/tpms_lib.cpp
@@ -159,7 +159,7 @@ template<int dim> template<typename T> auto SchoenIWP<dim>::grad_(const Point<3,
   grad_val(0) =
     (sin(pi_4_m_point(0)) - sin(pi_2_m_point(0)) * (cos(pi_2_m_point(1)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
   grad_val(1) =
-    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(0);
+    (sin(pi_4_m_point(1)) - sin(pi_2_m_point(1)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(2)))) * pi_4_m(1);
   if constexpr (dim == 3) {
     grad_val(2) =
       (sin(pi_4_m_point(2)) - sin(pi_2_m_point(2)) * (cos(pi_2_m_point(0)) + cos(pi_2_m_point(1)))) * pi_4_m(2);
-- 
2.43.0


From ef74473592367274d187bc712d18a976dc02291f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:33 +0000
Subject: [PATCH 49/72] fix: enclose the values and gradients of the square
 over intervals

---
 cpp/include/qugar/impl_funcs_lib.hpp | 10 ++++
 cpp/qugar/impl_funcs_lib.cpp         | 82 +++++++++++++++++++++-------
 2 files changed, 73 insertions(+), 19 deletions(-)

diff --git a/cpp/include/qugar/impl_funcs_lib.hpp b/cpp/include/qugar/impl_funcs_lib.hpp
index 0386a05..a8879b0 100644
--- a/cpp/include/qugar/impl_funcs_lib.hpp
+++ b/cpp/include/qugar/impl_funcs_lib.hpp
@@ -30,6 +30,7 @@
 #include <array>
 #include <memory>
 #include <type_traits>
+#include <utility>
 
 //! Namespace for defining implicit function examples.
 //! These function are ready to be consumed by Algoim.
@@ -153,6 +154,15 @@ public:
   //! @param val Value to be tested.
   //! @return +1 is @p val is positive, -1 if it is negative, 0 otherwise.
   template<typename T> static int sgn(const T &val);
+
+private:
+  //! @brief Bounds of the absolute values of the coordinates of an interval.
+  //!
+  //! @tparam T Type of the interval.
+  //! @param point Point of intervals.
+  //! @return Lower and upper bounds of the absolute value of every coordinate.
+  template<typename T>
+  static std::pair<Vector<real, dim>, Vector<real, dim>> abs_bounds(const Point<dim, T> &point);
 };
 
 //! @brief dim-linear function.
diff --git a/cpp/qugar/impl_funcs_lib.cpp b/cpp/qugar/impl_funcs_lib.cpp
index 56d0f75..bb24bbe 100644
--- a/cpp/qugar/impl_funcs_lib.cpp
+++ b/cpp/qugar/impl_funcs_lib.cpp
@@ -25,11 +25,13 @@
 #include <qugar/types.hpp>
 #include <qugar/vector.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cassert>
 #include <cmath>
 #include <memory>
 #include <type_traits>
+#include <utility>
 
 namespace qugar::impl::funcs {
 
@@ -47,38 +49,80 @@ implement_impl_func_transf(Square);
 
 template<int dim> template<typename T> T Square<dim>::eval_(const Point<dim, T> &point) const
 {
-  Vector<real, dim> diff;
-
-  for (int dir = 0; dir < dim; ++dir) {
-    if constexpr (std::is_same_v<T, real>) {
+  if constexpr (std::is_same_v<T, real>) {
+    Vector<real, dim> diff;
+    for (int dir = 0; dir < dim; ++dir) {
       diff(dir) = std::abs(point(dir)) - numbers::one;
-    } else {
-      diff(dir) = std::abs(T(point(dir)).alpha) - numbers::one;
     }
-  }
-
-  if constexpr (std::is_same_v<T, real>) {
     return max(diff);
   } else {
-    const int ind = argmax(diff);
-    return point(ind) * sgn(point(ind)) - numbers::one;
+    const auto [lower, upper] = abs_bounds(point);
+    const int ind = argmax(lower);
+
+    // The expression of the function is the same for the whole interval only
+    // if a single direction dominates and its coordinate doesn't change of sign.
+    bool single = lower(ind) > numbers::zero;
+    for (int dir = 0; dir < dim; ++dir) {
+      single = single && (dir == ind || upper(dir) <= lower(ind));
+    }
+    if (single) {
+      return point(ind) * sgn(point(ind)) - numbers::one;
+    }
+
+    T bounds(numbers::half * (max(lower) + max(upper)) - numbers::one);
+    bounds.eps = numbers::half * (max(upper) - max(lower));
+    return bounds;
   }
 }
 
 template<int dim> template<typename T> Vector<T, dim> Square<dim>::grad_(const Point<dim, T> &point) const
 {
-  Vector<real, dim> diff{};
-  for (int dir = 0; dir < dim; ++dir) {
-    if constexpr (std::is_same_v<T, real>) {
+  if constexpr (std::is_same_v<T, real>) {
+    Vector<real, dim> diff{};
+    for (int dir = 0; dir < dim; ++dir) {
       diff(dir) = std::abs(point(dir)) - numbers::one;
-    } else {
-
-      diff(dir) = std::abs(T(point(dir)).alpha) - numbers::one;
     }
+    const int ind = argmax(diff);
+    return set_component<T, dim>(numbers::zero, ind, T(sgn(point(ind))));
+  } else {
+    const auto [lower, upper] = abs_bounds(point);
+    const int ind = argmax(lower);
+
+    Vector<T, dim> grad;
+    for (int dir = 0; dir < dim; ++dir) {
+      grad(dir) = T(numbers::zero);
+      // Directions that may dominate somewhere in the interval.
+      if (upper(dir) >= lower(ind)) {
+        bool single = dir == ind;
+        for (int other = 0; other < dim; ++other) {
+          single = single && (other == dir || upper(other) <= lower(dir));
+        }
+        const bool uniform = lower(dir) > numbers::zero;
+        const real sign = T(point(dir)).alpha < numbers::zero ? -numbers::one : numbers::one;
+        const real dir_max = uniform ? sign : numbers::one;
+        const real dir_min = single && uniform ? sign : (uniform ? numbers::zero : -numbers::one);
+        grad(dir) = T(numbers::half * (dir_max + dir_min));
+        grad(dir).eps = numbers::half * std::abs(dir_max - dir_min);
+      }
+    }
+    return grad;
   }
+}
 
-  const int ind = argmax(diff);
-  return set_component<T, dim>(numbers::zero, ind, T(sgn(point(ind))));
+template<int dim>
+template<typename T>
+std::pair<Vector<real, dim>, Vector<real, dim>> Square<dim>::abs_bounds(const Point<dim, T> &point)
+{
+  Vector<real, dim> lower;
+  Vector<real, dim> upper;
+  for (int dir = 0; dir < dim; ++dir) {
+    const T coord = point(dir);
+    const real mid = std::abs(coord.alpha);
+    const real dev = coord.maxDeviation();
+    lower(dir) = std::max(mid - dev, numbers::zero);
+    upper(dir) = mid + dev;
+  }
+  return std::make_pair(lower, upper);
 }
 
 template<int dim> template<typename T> auto Square<dim>::hessian_(const Vector<T, dim> & /*point*/) const -> Hessian<T>
-- 
2.43.0


From db2b5df54e8d295020aeaa214eff7a97236516fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 50/72] fix: allow determining the status of some target cells
 only

---
 cpp/qugar/impl_unfitted_domain.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index e578dc8..9e4ee4c 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -108,25 +108,13 @@ namespace {
     }
   }
 
-  //! Inserts cell IDs from a subgrid into a container.
+  //! Sets the status of all the cells of a subgrid in which the function has a uniform sign.
   //!
-  //! @param subgrid The subgrid from which to extract cell IDs.
-  //! @param target_cells Optional vector of target cell IDs. If provided, only these cells
-  //!                     within the subgrid's range will be inserted into the container.
-  //! @param container The container to store the cell IDs.
-  //!
-  //! If `target_cells` is provided, this function inserts the cell IDs from `target_cells`
-  //! that are within the range of `subgrid` into `container`. If `target_cells` is not provided,
-  //! all cell IDs from the `subgrid` are inserted into `container`.
-  template<int dim>
-  void insert_cells(UnfittedBinarySpacePart<dim> &tree,
-    const std::optional<std::vector<std::int64_t>> &target_cells,
-    const FuncSign sign)
+  //! @param tree Leaf whose cells' status is set. The status is the right one for all of its cells,
+  //!             even for those that are not target cells.
+  //! @param sign Sign of the function in the whole subgrid.
+  template<int dim> void insert_cells(UnfittedBinarySpacePart<dim> &tree, const FuncSign sign)
   {
-    // TODO: Implement this function for target cells.
-    static_cast<void>(target_cells);
-    assert(!target_cells.has_value());
-
     const auto status = sign == FuncSign::positive ? ImmersedCellStatus::empty : ImmersedCellStatus::full;
 
     tree.set_status(status);
@@ -464,7 +452,7 @@ void UnfittedImplDomain<dim>::create_decomposition(KDTree &tree,
     }
   } else {
     assert(sign == FuncSign::positive || sign == FuncSign::negative);
-    insert_cells(tree, target_cells, sign);
+    insert_cells(tree, sign);
   }
 }
 
-- 
2.43.0


From d4494084eb449204372f2d2e013e98589e410f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 51/72] fix: classify cells from the sign of Bezier polynomials
 in the cell

---
 cpp/qugar/impl_unfitted_domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index 9e4ee4c..262d808 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -182,7 +182,7 @@ namespace {
     BezierTP<dim> bzr_domain(bezier);
     bzr_domain.rescale_domain(domain);
 
-    switch (bezier.sign()) {
+    switch (bzr_domain.sign()) {
     case FuncSign::positive:
       return ImmersedCellStatusTmp::empty;
     case FuncSign::negative:
-- 
2.43.0


From 79a621b6ce85eb3cf62f49adf1c8a692a80b14ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:47 +0000
Subject: [PATCH 52/72] fix: allow querying the status of leaves

---
 cpp/qugar/unfitted_domain_binary_part.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/unfitted_domain_binary_part.cpp b/cpp/qugar/unfitted_domain_binary_part.cpp
index 80813cc..3b9b923 100644
--- a/cpp/qugar/unfitted_domain_binary_part.cpp
+++ b/cpp/qugar/unfitted_domain_binary_part.cpp
@@ -62,7 +62,7 @@ template<int dim> void UnfittedBinarySpacePart<dim>::set_status(const ImmersedCe
 
 template<int dim> ImmersedCellStatus UnfittedBinarySpacePart<dim>::get_status() const
 {
-  assert(this->get_child(0) != nullptr && this->get_child(1) != nullptr);
+  assert(this->is_leaf());
   return this->status_;
 }
 
-- 
2.43.0


From 5e7763987a9cb5efa2dcbf74726009dc06a0aa47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:06 +0000
Subject: [PATCH 53/72] fix: compare volumes of cells relatively when
 classifying them

---
 cpp/qugar/impl_unfitted_domain.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index 262d808..207922d 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -151,14 +151,16 @@ namespace {
   template<int dim>
   ImmersedCellStatusTmp classify_cell_from_quad(const QuadRule<dim> &quad, const BoundBox<dim> &domain)
   {
-    const auto cell_vol = quad.sumWeights();
+    // Part of the cell that is covered by the quadrature. The tolerance accounts for the
+    // accumulated round-off when the quadrature has a large number of points.
+    const real covered = quad.sumWeights() / domain.volume();
 
-    const Tolerance default_tol;
-    if (default_tol.equal(cell_vol, numbers::zero)) {
+    const Tolerance tol{ Tolerance().value() * 1.0e3 };
+    if (tol.is_zero(covered)) {
       // It is an empty cell but with an unfitted boundary (on the cell's boundary).
       // We consider that the unfitted boundary belongs to a neighbor cell.
       return ImmersedCellStatusTmp::empty;
-    } else if (default_tol.equal(cell_vol, domain.volume())) {
+    } else if (tol.equal(covered, numbers::one)) {
       // Full cell but with an unfitted boundary (on a cell's boundary).
       return ImmersedCellStatusTmp::full_with_unf_bdry;
     } else {
-- 
2.43.0


From d89d5c4f7413c0807267f2e7b5fbb512ffcbc86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:27 +0000
Subject: [PATCH 54/72] fix: classify cells and facets with more than one point
 per direction

---
 cpp/qugar/impl_unfitted_domain.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index 207922d..e395523 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -173,7 +173,7 @@ namespace {
   template<int dim>
   ImmersedCellStatusTmp classify_cell_general(const ImplicitFunc<dim> &phi, const BoundBox<dim> &domain)
   {
-    constexpr int n_pts_dir{ 1 };
+    constexpr int n_pts_dir{ 2 };
     const auto alg_domain = domain.to_hyperrectangle();
     const auto quad = ::algoim::quadGen(phi, alg_domain, -1, 0, n_pts_dir);
     return classify_cell_from_quad(quad, domain);
@@ -194,7 +194,7 @@ namespace {
     }
 
     constexpr auto quad_strategy = alg::QuadStrategy::AlwaysGL;
-    constexpr int n_pts_dir{ 1 };
+    constexpr int n_pts_dir{ 2 };
 
     alg::ImplicitPolyQuadrature<dim> ipquad(bzr_domain.get_xarray());
 
@@ -243,7 +243,8 @@ namespace {
       switch (facet_status) {
       case ImmersedFacetStatus::unf_bdry:
       case ImmersedFacetStatus::ext_bdry: {
-        if (n_pts == 1) {
+        // The quadrature of the facet was not split.
+        if (n_pts == (1 << (dim - 1))) {
           return facet_status == ImmersedFacetStatus::unf_bdry ? ImmersedFacetStatus::full_unf_bdry
                                                                : ImmersedFacetStatus::full_ext_bdry;
         }
@@ -332,7 +333,7 @@ namespace {
     const int const_dir = get_facet_constant_dir<dim>(local_facet_id);
     const int side = get_facet_side<dim>(local_facet_id);
     const auto domain = subgrid.get_domain().to_hyperrectangle();
-    constexpr int n_pts_dir{ 1 };
+    constexpr int n_pts_dir{ 2 };
     const auto facet_quad = ::algoim::quadGen(phi, domain, const_dir, side, n_pts_dir);
 
     return classify_facet_from_quad(phi, domain, local_facet_id, cell_status, facet_quad);
@@ -350,7 +351,7 @@ namespace {
 
     const int const_dir = get_facet_constant_dir<dim>(local_facet_id);
     const int side = get_facet_side<dim>(local_facet_id);
-    constexpr int n_pts_dir{ 1 };
+    constexpr int n_pts_dir{ 2 };
     constexpr auto quad_strategy = alg::QuadStrategy::AlwaysGL;
 
     alg::ImplicitPolyQuadrature<dim - 1> ipquad(bzr_facet->get_xarray());
-- 
2.43.0


From 318381965539e5ae26c45d1939ba5196c49c6068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:27 +0000
Subject: [PATCH 55/72] fix: tolerance for the round-off of quadratures with
 many points

---
 cpp/qugar/impl_unfitted_domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index e395523..9de29a8 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -155,7 +155,7 @@ namespace {
     // accumulated round-off when the quadrature has a large number of points.
     const real covered = quad.sumWeights() / domain.volume();
 
-    const Tolerance tol{ Tolerance().value() * 1.0e3 };
+    const Tolerance tol{ Tolerance().value() * 1.0e5 };
     if (tol.is_zero(covered)) {
       // It is an empty cell but with an unfitted boundary (on the cell's boundary).
       // We consider that the unfitted boundary belongs to a neighbor cell.
-- 
2.43.0


From 6d16ce2a85dd711a92c312f85a5bb2eb0a23c51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:34 +0000
Subject: [PATCH 56/72] fix: allow quadratures of facets that only have
 unfitted boundary

---
 cpp/qugar/impl_quadrature.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index a79ed6d..2f0d90e 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -401,7 +401,8 @@ namespace {
   {
     static_assert(dim == 2 || dim == 3, "Invalid dimension.");
     assert(0 < n_pts_dir);
-    assert(unf_domain.is_cut_facet(cell_id, local_facet_id));
+    assert(unf_domain.is_cut_facet(cell_id, local_facet_id)
+           || unf_domain.has_unfitted_boundary(cell_id, local_facet_id));
 
     const int const_dir = get_facet_constant_dir<dim>(local_facet_id);
     const int side = get_facet_side<dim>(local_facet_id);
@@ -440,7 +441,8 @@ namespace {
     static_assert(dim == 2 || dim == 3, "Invalid dimension.");
 
     assert(0 < n_pts_dir);
-    assert(unf_domain.is_cut_facet(cell_id, local_facet_id));
+    assert(unf_domain.is_cut_facet(cell_id, local_facet_id)
+           || unf_domain.has_unfitted_boundary(cell_id, local_facet_id));
 
 
     const auto grid = unf_domain.get_grid();
-- 
2.43.0


From 505cd76223b7541c9a8b7408e98c42e6791b0716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:45 +0000
Subject: [PATCH 57/72] fix: do not count twice the boundary in facets of the
 other side

---
 cpp/qugar/impl_quadrature.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index 2f0d90e..de55e26 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -572,7 +572,8 @@ void create_cell_unfitted_bound_quadrature(const UnfittedImplDomain<dim> &unf_do
 
     // We remove generated points on facets.
     for (int local_facet_id = 0; local_facet_id < n_local_facets; ++local_facet_id) {
-      if (unf_domain.has_unfitted_boundary(cell_id, local_facet_id)) {
+      if (unf_domain.has_unfitted_boundary(cell_id, local_facet_id)
+          || unf_domain.has_external_boundary(cell_id, local_facet_id)) {
         purge_facet_points(*phi, unf_domain, cell_id, local_facet_id, quad);
       }
     }
-- 
2.43.0


From 72ba55cc712081e2a64e22e21ffb024833f4cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:26 +0000
Subject: [PATCH 58/72] fix: find the boundary in facets where polynomials are
 exactly zero

---
 cpp/qugar/impl_quadrature.cpp      | 6 ++++--
 cpp/qugar/impl_unfitted_domain.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/qugar/impl_quadrature.cpp b/cpp/qugar/impl_quadrature.cpp
index de55e26..01c1fdb 100644
--- a/cpp/qugar/impl_quadrature.cpp
+++ b/cpp/qugar/impl_quadrature.cpp
@@ -457,10 +457,12 @@ namespace {
     alg::ImplicitPolyQuadrature<dim - 1> ipquad(bezier_facet->get_xarray());
 
     constexpr auto strategy = alg::QuadStrategy::AutoMixed;
+    // Points on the level set are also needed: the facet may be part of it.
+    const Tolerance tol(1000.0 * numbers::eps);
     ipquad.integrate(
-      strategy, n_pts_dir, [&quad, bezier_facet](const Point<dim - 1> &perm_point_01, const real weight_01) {
+      strategy, n_pts_dir, [&quad, bezier_facet, &tol](const Point<dim - 1> &perm_point_01, const real weight_01) {
         const auto point_01 = permute_vector_directions(perm_point_01);
-        if (bezier_facet->operator()(point_01) < numbers::zero) {
+        if (!tol.is_positive(bezier_facet->operator()(point_01))) {
           quad.points.push_back(point_01);
           quad.weights.push_back(weight_01);
         }
diff --git a/cpp/qugar/impl_unfitted_domain.cpp b/cpp/qugar/impl_unfitted_domain.cpp
index 9de29a8..a7c883f 100644
--- a/cpp/qugar/impl_unfitted_domain.cpp
+++ b/cpp/qugar/impl_unfitted_domain.cpp
@@ -358,11 +358,13 @@ namespace {
 
     QuadRule<dim> facet_quad;
 
+    // Points on the level set are also needed: the facet may be part of it.
+    const Tolerance tol;
     ipquad.integrate(quad_strategy,
       n_pts_dir,
-      [&facet_quad, &bzr_facet, side, const_dir](const Vector<real, dim - 1> &perm_point, const real weight) {
+      [&facet_quad, &bzr_facet, &tol, side, const_dir](const Vector<real, dim - 1> &perm_point, const real weight) {
         const auto point = permute_vector_directions(perm_point);
-        if (bzr_facet->operator()(point) < numbers::zero) {
+        if (!tol.is_positive(bzr_facet->operator()(point))) {
           const auto sup_point = add_component(point, const_dir, static_cast<real>(side));
           facet_quad.nodes.emplace_back(sup_point, weight);
         }
-- 
2.43.0


From c791a585fb83ce6c2be5e100c4e01953382cad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:58 +0000
Subject: [PATCH 59/72] fix: name the blocks of .vtmb files relatively to their
 folder

---
 cpp/qugar/reparam_mesh.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cpp/qugar/reparam_mesh.cpp b/cpp/qugar/reparam_mesh.cpp
index c0c6366..0593c47 100644
--- a/cpp/qugar/reparam_mesh.cpp
+++ b/cpp/qugar/reparam_mesh.cpp
@@ -36,6 +36,7 @@
 #include <cassert>
 #include <cstddef>
 #include <cstring>
+#include <filesystem>
 #include <fstream>
 #include <iomanip>
 #include <limits>
@@ -747,8 +748,11 @@ template<int dim, int range> void ReparamMesh<dim, range>::write_VTK_file(const
   stream << R"(<VTKFile type="vtkMultiBlockDataSet" version="1.0" byte_order="LittleEndian">)" << "\n";
   stream << "  <vtkMultiBlockDataSet>\n";
 
-  stream << R"(    <DataSet index="0" name="interior" file=")" << filename << R"(.vtu"/>)" << "\n";
-  stream << R"(    <DataSet index="1" name="boundary" file=")" << wirebasket_filename << R"(.vtu"/>)" << "\n";
+  // The names of the blocks are relative to the folder of the .vtmb file.
+  const auto block = std::filesystem::path(filename).filename().string();
+  const auto wirebasket_block = std::filesystem::path(wirebasket_filename).filename().string();
+  stream << R"(    <DataSet index="0" name="interior" file=")" << block << R"(.vtu"/>)" << "\n";
+  stream << R"(    <DataSet index="1" name="boundary" file=")" << wirebasket_block << R"(.vtu"/>)" << "\n";
 
   stream << "  </vtkMultiBlockDataSet>\n";
   stream << "</VTKFile>\n";
-- 
2.43.0


From a614c91dc648176e32cae65008337492bab1018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:58 +0000
Subject: [PATCH 60/72] fix: take the reference roots of the restriction asked
 for

---
 cpp/qugar/impl_reparam_general.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/qugar/impl_reparam_general.cpp b/cpp/qugar/impl_reparam_general.cpp
index 5bbda27..f679bd5 100644
--- a/cpp/qugar/impl_reparam_general.cpp
+++ b/cpp/qugar/impl_reparam_general.cpp
@@ -403,7 +403,7 @@ template<int dim, int range, typename R, bool S, bool T = true> struct ImplicitG
 
     for (int i = 0; i < ref_intervals.get_num_roots(); ++i) {
       if (at(ref_intervals.func_ids, i) == psi_id) {
-        ref_roots.push_back(at(ref_intervals.roots, psi_id));
+        ref_roots.push_back(at(ref_intervals.roots, i));
       }
     }
 
-- 
2.43.0


From 4c6ef024581fcc2263516164ccfce9df116aabf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:38 +0000
Subject: [PATCH 61/72] fix: name of an argument in an assertion of the
 wrappers of unfitted domains

---
 python/nanobind_wrappers/unf_domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index 9a55db6..873594f 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -82,7 +82,7 @@ namespace {
         std::vector<int> local_facet_ids;
 
         if (target_cell_ids_py.has_value()) {
-          assert(target_local_facets_ids_py.has_value());
+          assert(target_local_facet_ids_py.has_value());
 
           const std::span<const std::int64_t> cells_span(
             target_cell_ids_py.value().data(), target_cell_ids_py.value().size());
-- 
2.43.0


From 7334f2d122fd849a4ef4d43095dad822c1927404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:38 +0000
Subject: [PATCH 62/72] fix: do not keep references to local variables in the
 wrappers of unfitted domains

---
 python/nanobind_wrappers/unf_domain.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index 873594f..7402874 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -54,7 +54,7 @@ namespace {
     };
 
     const auto get_cells =
-      [&make_tuple](const auto &accessor_0,
+      [](const auto &accessor_0,
         const auto &accessor_1,
         const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
         std::vector<std::int64_t> cell_ids;
@@ -74,7 +74,7 @@ namespace {
       };
 
     const auto get_facets =
-      [&make_tuple](const auto &accessor_0,
+      [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
         const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
         const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
@@ -113,7 +113,7 @@ namespace {
         "has_facets_with_unf_bdry", [](const UnfDomain &domain) { return domain.has_facets_with_unf_bdry(); })
       .def(
         "get_full_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_full_cells(target_cell_ids, cell_ids);
@@ -125,7 +125,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_empty_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_empty_cells(target_cell_ids, cell_ids);
@@ -137,7 +137,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_cut_cells",
-        [&get_cells](const UnfDomain &domain,
+        [get_cells](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_cut_cells(target_cell_ids, cell_ids);
@@ -149,7 +149,7 @@ namespace {
         nb::arg("target_cell_ids") = nb::none())
       .def(
         "get_empty_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -167,7 +167,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_full_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -185,7 +185,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_cut_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -203,7 +203,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_unf_bdry_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
@@ -221,7 +221,7 @@ namespace {
         nb::arg("target_local_facet_ids") = nb::none())
       .def(
         "get_full_unf_bdry_facets",
-        [&get_facets](const UnfDomain &domain,
+        [get_facets](const UnfDomain &domain,
           const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
           const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
           const auto accessor_0 =
-- 
2.43.0


From f34a00756d658fd19e81295c7c00023c3bfcb5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:38 +0000
Subject: [PATCH 63/72] fix: the middle point of bounding boxes referred to a
 temporary

---
 python/nanobind_wrappers/common.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/nanobind_wrappers/common.cpp b/python/nanobind_wrappers/common.cpp
index 283ea60..c40103a 100644
--- a/python/nanobind_wrappers/common.cpp
+++ b/python/nanobind_wrappers/common.cpp
@@ -83,7 +83,8 @@ namespace {
         "mid_point",
         [](BBox &bbox) {
           using Array = nb::ndarray<const real, nb::numpy, nb::shape<dim>, nb::c_contig>;
-          return Array(bbox.mid_point().data(), { dim }, nb::handle());
+          const auto mid_point = bbox.mid_point();
+          return Array(mid_point.data(), { dim }, nb::handle()).cast();
         },
         nb::rv_policy::reference_internal)
       .def_prop_ro("volume", &BBox::volume)
-- 
2.43.0


From 843ef42a28b4b529fd6c14eaf5043d21bf8bd596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:38 +0000
Subject: [PATCH 64/72] fix: read only the entries of non-contiguous arrays of
 cells, facets and breaks

---
 python/nanobind_wrappers/common.cpp     |  2 +-
 python/nanobind_wrappers/cut_quad.cpp   | 10 ++++----
 python/nanobind_wrappers/reparam.cpp    |  2 +-
 python/nanobind_wrappers/unf_domain.cpp | 34 ++++++++++++-------------
 4 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/python/nanobind_wrappers/common.cpp b/python/nanobind_wrappers/common.cpp
index c40103a..63a219b 100644
--- a/python/nanobind_wrappers/common.cpp
+++ b/python/nanobind_wrappers/common.cpp
@@ -117,7 +117,7 @@ namespace {
   template<int dim> void declare_cartesian_grid_tp(nb::module_ &module)
   {
     using Grid = CartGridTP<dim>;
-    using BreaksArray = nb::ndarray<const real, nb::numpy, nb::shape<-1>>;
+    using BreaksArray = nb::ndarray<const real, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     const std::string pyclass_name{ std::string("CartGridTP_") + std::to_string(dim) + "D" };
     // NOLINTNEXTLINE (bugprone-unused-raii)
diff --git a/python/nanobind_wrappers/cut_quad.cpp b/python/nanobind_wrappers/cut_quad.cpp
index b3b7241..3e28ccd 100644
--- a/python/nanobind_wrappers/cut_quad.cpp
+++ b/python/nanobind_wrappers/cut_quad.cpp
@@ -173,8 +173,8 @@ namespace {
 
   template<int dim> void create_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
-    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
+    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_quadrature",
@@ -191,7 +191,7 @@ namespace {
 
   template<int dim> void create_unfitted_bound_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_unfitted_bound_quadrature",
@@ -216,8 +216,8 @@ namespace {
 
   template<int dim> void create_facets_quadrature(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
-    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
+    using FacetsArray = nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_facets_quadrature_interior_integral",
diff --git a/python/nanobind_wrappers/reparam.cpp b/python/nanobind_wrappers/reparam.cpp
index 5986420..baea45a 100644
--- a/python/nanobind_wrappers/reparam.cpp
+++ b/python/nanobind_wrappers/reparam.cpp
@@ -96,7 +96,7 @@ namespace {
 
   template<int dim> void create_reparam(nb::module_ &module)
   {
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_reparameterization",
diff --git a/python/nanobind_wrappers/unf_domain.cpp b/python/nanobind_wrappers/unf_domain.cpp
index 7402874..395aae1 100644
--- a/python/nanobind_wrappers/unf_domain.cpp
+++ b/python/nanobind_wrappers/unf_domain.cpp
@@ -56,7 +56,7 @@ namespace {
     const auto get_cells =
       [](const auto &accessor_0,
         const auto &accessor_1,
-        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
         std::vector<std::int64_t> cell_ids;
 
         if (target_cell_ids_py.has_value()) {
@@ -76,8 +76,8 @@ namespace {
     const auto get_facets =
       [make_tuple](const auto &accessor_0,
         const auto &accessor_1,
-        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-        const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+        const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+        const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
         std::vector<std::int64_t> cell_ids;
         std::vector<int> local_facet_ids;
 
@@ -114,7 +114,7 @@ namespace {
       .def(
         "get_full_cells",
         [get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_full_cells(target_cell_ids, cell_ids);
           };
@@ -126,7 +126,7 @@ namespace {
       .def(
         "get_empty_cells",
         [get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_empty_cells(target_cell_ids, cell_ids);
           };
@@ -138,7 +138,7 @@ namespace {
       .def(
         "get_cut_cells",
         [get_cells](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py) {
           const auto accessor_0 = [&domain](const auto &target_cell_ids, auto &cell_ids) {
             domain.get_cut_cells(target_cell_ids, cell_ids);
           };
@@ -150,8 +150,8 @@ namespace {
       .def(
         "get_empty_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -168,8 +168,8 @@ namespace {
       .def(
         "get_full_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -186,8 +186,8 @@ namespace {
       .def(
         "get_cut_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -204,8 +204,8 @@ namespace {
       .def(
         "get_unf_bdry_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -222,8 +222,8 @@ namespace {
       .def(
         "get_full_unf_bdry_facets",
         [get_facets](const UnfDomain &domain,
-          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>> &target_cell_ids_py,
-          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>>> &target_local_facet_ids_py) {
+          const std::optional<nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_cell_ids_py,
+          const std::optional<nb::ndarray<const int, nb::numpy, nb::shape<-1>, nb::c_contig>> &target_local_facet_ids_py) {
           const auto accessor_0 =
             [&domain](
               const auto &target_cell_ids, const auto &target_local_facet_ids, auto &cell_ids, auto &local_facet_ids) {
@@ -273,7 +273,7 @@ namespace {
       nb::arg("impl_func"),
       nb::arg("grid"));
 
-    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>>;
+    using CellsArray = nb::ndarray<const std::int64_t, nb::numpy, nb::shape<-1>, nb::c_contig>;
 
     module.def(
       "create_unfitted_impl_domain",
-- 
2.43.0


From a6a020ee74f6a6fff056c62e9706c34cdf9b69c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:41 +0000
Subject: [PATCH 65/72] fix: create affinely transformed boxes

---
 python/qugar/impl/impl_function.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index fffd00c..67f5a7f 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -541,7 +541,8 @@ def create_box(
             is created.
         dim (Optional[int]):
             The dimension of the box. Must be either 2 or 3. If affine_trans is provided,
-            this must match the dimension of the affine transformation. If None, defaults to 2.
+            this must match the dimension of the affine transformation. If None, defaults to
+            the dimension of the affine transformation, if provided, and to 2 otherwise.
 
     Returns:
         ImplicitFunc: An implicit function representing the created box.
@@ -561,14 +562,10 @@ def create_box(
             cpp_obj = qugar.cpp.create_square_3D()
 
     else:
-        assert dim == (2 if isinstance(affine_trans, qugar.cpp.AffineTransf_2D) else 3), (
-            "Non-matching affine transformation and dimension"
-        )
+        transf_dim = 2 if isinstance(affine_trans, qugar.cpp.AffineTransf_2D) else 3
+        assert dim is None or dim == transf_dim, "Non-matching affine transformation and dimension"
 
-        if dim == 2:
-            cpp_obj = qugar.cpp.create_square_2D(affine_trans)
-        else:
-            cpp_obj = qugar.cpp.create_square_3D(affine_trans)
+        cpp_obj = qugar.cpp.create_square(affine_trans)
 
     return ImplicitFunc(cpp_obj)
 
-- 
2.43.0


From 8a695238ce4f7eaa7e051f5ad8516c92dba1a7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:41 +0000
Subject: [PATCH 66/72] fix: reject ellipsoids with non-positive semi-axes

---
 python/qugar/impl/impl_function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/qugar/impl/impl_function.py b/python/qugar/impl/impl_function.py
index 67f5a7f..2ec50ce 100644
--- a/python/qugar/impl/impl_function.py
+++ b/python/qugar/impl/impl_function.py
@@ -218,7 +218,7 @@ def create_ellipsoid(
     """
 
     assert semi_axes.size == 3, "Invalid semi-axes dimension. It must have 3 coordinates"
-    semi_axes = semi_axes.astype(np.float64)
+    assert np.all(semi_axes > 0.0), "Invalid semi-axes. They must be all positive"
     semi_axes = semi_axes.astype(np.float64)
 
     if ref_system is None:
-- 
2.43.0


From cb09ee3d76fef56266a360045792b89ce8645255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:55 +0000
Subject: [PATCH 67/72] fix: use the quadratures of each integral, not those of
 the whole module

---
 python/qugar/dolfinx/integral_data.py   |  3 ++-
 python/qugar/dolfinx/quadrature_data.py | 30 ++++++++++++++++---------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/python/qugar/dolfinx/integral_data.py b/python/qugar/dolfinx/integral_data.py
index 699d5ba..6b0c7b0 100644
--- a/python/qugar/dolfinx/integral_data.py
+++ b/python/qugar/dolfinx/integral_data.py
@@ -200,7 +200,8 @@ def extract_integral_data(
 
     short_itg_name = itg_name[len("integral_") :]
 
-    all_quads_data = extract_quadrature_data(ufl_analysis, ffcx_options)
+    itg_index = next(i for i, other in enumerate(ir.integrals) if other is itg_ir)
+    all_quads_data = extract_quadrature_data(ufl_analysis, itg_index, ffcx_options)
     FE_tables = extract_FE_tables(itg_impl, itg_ir, all_quads_data, tdim)
 
     is_mixed_dim = _is_mixed_dim(itg_ir, tdim)
diff --git a/python/qugar/dolfinx/quadrature_data.py b/python/qugar/dolfinx/quadrature_data.py
index b5093c3..d513a68 100644
--- a/python/qugar/dolfinx/quadrature_data.py
+++ b/python/qugar/dolfinx/quadrature_data.py
@@ -117,14 +117,22 @@ def _extract_single_quadrature_data(
 
 def extract_quadrature_data(
     ufl_data: ffcx.analysis.UFLData,
+    itg_index: int,
     ffcx_options: dict[str, int | float | npt.DTypeLike],
 ) -> dict[str, QuadratureData]:
-    """Extracts all the quadrature data associated to the given
-    `ufl_data`.
+    """Extracts all the quadrature data associated to one integral of
+    the given `ufl_data`.
+
+    Note:
+        The names of the quadratures are only unique within an integral:
+        different rules of different integrals may share their name.
 
     Args:
         ufl_data (ffcx.analysis.UFLData): UFL (analysis) data from which
             the quadrature data is extracted.
+        itg_index (int): Position of the integral among all the
+            integrals of all the forms in `ufl_data` (the same one as in
+            the FFCx intermediate representation).
         ffcx_options (dict[str, int  |  float  |  npt.DTypeLike]): FFCx
             compilation options for the given UFL integrand (and form).
 
@@ -135,14 +143,14 @@ def extract_quadrature_data(
 
     quads_data = {}
 
-    for fd in ufl_data.form_data:
-        for itg_data in fd.integral_data:
-            for itg in itg_data.integrals:
-                quad_data = _extract_single_quadrature_data(itg, fd, ffcx_options)
-                # Rules of different degree may share their points (all the
-                # ones of unfitted boundaries do).
-                prev = quads_data.get(quad_data.name)
-                if prev is None or prev.degree < quad_data.degree:
-                    quads_data[quad_data.name] = quad_data
+    all_itgs = [(fd, itg_data) for fd in ufl_data.form_data for itg_data in fd.integral_data]
+    fd, itg_data = all_itgs[itg_index]
+    for itg in itg_data.integrals:
+        quad_data = _extract_single_quadrature_data(itg, fd, ffcx_options)
+        # Rules of different degree may share their points (all the
+        # ones of unfitted boundaries do).
+        prev = quads_data.get(quad_data.name)
+        if prev is None or prev.degree < quad_data.degree:
+            quads_data[quad_data.name] = quad_data
 
     return quads_data
-- 
2.43.0


From 1e1769e4722bc3ea05cfa2b7912ad7188e2f8d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:09 +0000
Subject: [PATCH 68/72] fix: restore the handlers of the root logger when a
 compilation fails

---
 python/qugar/dolfinx/jit.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/qugar/dolfinx/jit.py b/python/qugar/dolfinx/jit.py
index abeb484..2a59daa 100644
--- a/python/qugar/dolfinx/jit.py
+++ b/python/qugar/dolfinx/jit.py
@@ -174,8 +174,14 @@ def _compile_objects(
     # since CFFI logs into root logger
     old_handlers = root_logger.handlers.copy()
     root_logger.handlers = [logging.StreamHandler(f)]
-    with redirect_stdout(f), _deduped_ldshared():
-        ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+    try:
+        with redirect_stdout(f), _deduped_ldshared():
+            ffibuilder.compile(tmpdir=cache_dir, verbose=True, debug=cffi_debug)
+    finally:
+        # Copy back the original handlers (in case someone is logging
+        # into root logger and has custom handlers), also if the
+        # compilation fails.
+        root_logger.handlers = old_handlers
     s = f.getvalue()
     if cffi_verbose:
         print(s)
@@ -189,10 +195,6 @@ def _compile_objects(
     fd.write(s)
     fd.close()
 
-    # Copy back the original handlers (in case someone is logging into
-    # root logger and has custom handlers)
-    root_logger.handlers = old_handlers
-
     return code_body, itg_data
 
 
-- 
2.43.0


From 8247825894e232ccf194056ccf2e985a423b457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:50 +0000
Subject: [PATCH 69/72] fix: set the status of the right cells when exporting
 meshes to PyVista

---
 python/qugar/plot/pyvista_tools.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/qugar/plot/pyvista_tools.py b/python/qugar/plot/pyvista_tools.py
index 39ce782..8e1b45a 100644
--- a/python/qugar/plot/pyvista_tools.py
+++ b/python/qugar/plot/pyvista_tools.py
@@ -623,6 +623,13 @@ def unfitted_domain_to_PyVista(
     value[full_cells] = full
     status[full_cells] = 0
 
+    if not is_cpp:
+        # The cells above follow the DOLFINx local numbering, the ones of
+        # the grid are sorted lexicographically.
+        dlf_cell_ids = grid.cell_data["DOLFINx local cell ids"]
+        value = value[dlf_cell_ids]
+        status = status[dlf_cell_ids]
+
     grid.cell_data["value"] = value
     grid.cell_data["Cell status (0: full, 1: cut, 2: empty)"] = status
 
-- 
2.43.0


From ca59847b26dd9bff9c7089b0e9eb5676b28feea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:51 +0000
Subject: [PATCH 70/72] fix: export the right facets to PyVista, also those of
 native domains

---
 python/qugar/plot/pyvista_tools.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/python/qugar/plot/pyvista_tools.py b/python/qugar/plot/pyvista_tools.py
index 8e1b45a..0ec2e09 100644
--- a/python/qugar/plot/pyvista_tools.py
+++ b/python/qugar/plot/pyvista_tools.py
@@ -525,10 +525,13 @@ def unfitted_domain_facets_to_PyVista(
             FEniCSx installation is not found.
     """
 
+    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
+
     grid = unfitted_domain_to_PyVista(domain, cut=True, full=True, empty=True)
     n_cells = grid.n_cells
+    lex_cell_ids = np.array(grid.cell_data["Lexicographical cell ids"])
 
-    dim = domain.tdim
+    dim = domain.dim if is_cpp else domain.tdim
     assert 2 <= dim <= 3, "Invalid dimension."
 
     grid = cast(pv.DataSet, grid.explode(factor=0.0))
@@ -555,9 +558,16 @@ def unfitted_domain_facets_to_PyVista(
     if empty:
         facets[2] = domain.get_empty_facets()
 
-    for status, lex_cells_facets in facets.items():
-        vtk_facets = vtk_lex_mask[lex_cells_facets.local_facet_ids]
-        vtk_cells = lex_cells_facets.cell_ids * n_facets_per_cell + vtk_facets
+    for status, status_facets in facets.items():
+        if is_cpp:
+            cell_ids, local_facet_ids = status_facets
+        else:
+            lex_facets = status_facets.to_original(domain.mesh)
+            cell_ids, local_facet_ids = lex_facets.cell_ids, lex_facets.local_facet_ids
+
+        vtk_facets = vtk_lex_mask[local_facet_ids]
+        # The grid may lack some cells (inactive ones).
+        vtk_cells = np.searchsorted(lex_cell_ids, cell_ids) * n_facets_per_cell + vtk_facets
         grid.cell_data["Facet status (0: full, 1: cut, 2: empty)"][vtk_cells] = status
         active_facets = np.append(active_facets, vtk_cells)
 
@@ -569,8 +579,6 @@ def unfitted_domain_facets_to_PyVista(
     lex_facets = lex_vtk_mask[vtk_facets]
     facets_grid.cell_data["Lexicographical local facets ids"] = lex_facets
 
-    is_cpp = isinstance(domain, (UnfittedDomain_2D, UnfittedDomain_3D))
-
     if not is_cpp:
         _append_DOLFINx_facets_ids(facets_grid, dim)
 
-- 
2.43.0


From 95adffd84a945c0f035ca4637d45142525523a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:03 +0000
Subject: [PATCH 71/72] fix: indices of corners, faces and edges of large
 tensor-product shapes

---
 python/qugar/mesh/tp_index.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/qugar/mesh/tp_index.py b/python/qugar/mesh/tp_index.py
index f0ec99e..e521293 100644
--- a/python/qugar/mesh/tp_index.py
+++ b/python/qugar/mesh/tp_index.py
@@ -57,6 +57,8 @@ class TensorProdIndex:
             the corners.
         """
 
+        # 32-bit products overflow for large shapes.
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
@@ -88,6 +90,8 @@ class TensorProdIndex:
             indices.
         """
 
+        # 32-bit products overflow for large shapes.
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
@@ -128,6 +132,8 @@ class TensorProdIndex:
             indices.
         """
 
+        # 32-bit products overflow for large shapes.
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
@@ -181,6 +187,8 @@ class TensorProdIndex:
             npt.NDArray[np.int64]: Array storing the sorted edge
             indices.
         """
+        # 32-bit products overflow for large shapes.
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
@@ -235,6 +243,8 @@ class TensorProdIndex:
             npt.NDArray[np.int64]: Indices associated to the face.
         """
 
+        # 32-bit products overflow for large shapes.
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3 and 0 <= face_id < 2 * dim
 
@@ -300,6 +310,8 @@ class TensorProdIndex:
             npt.NDArray[np.int64]: Indices associated to the edge.
         """
 
+        # 32-bit products overflow for large shapes.
+        n_inds = np.asarray(n_inds, dtype=np.int64)
         dim = len(n_inds)
         assert 1 <= dim <= 3
 
-- 
2.43.0


From acbca9bf9cf7fd48d33cab66e0fb4c236f2c5b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:23 +0000
Subject: [PATCH 72/72] fix: an inactive domain has no Bezier
 reparameterization

When the polynomial is positive in the whole box, reparam_Bezier went on with
no polynomials and added the full cell instead of nothing.
---
 cpp/qugar/impl_reparam_bezier.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cpp/qugar/impl_reparam_bezier.cpp b/cpp/qugar/impl_reparam_bezier.cpp
index 117dcc7..79ab2ed 100644
--- a/cpp/qugar/impl_reparam_bezier.cpp
+++ b/cpp/qugar/impl_reparam_bezier.cpp
@@ -724,8 +724,7 @@ namespace {
         const auto mask = alg::detail::nonzeroMask(xarray, alg::booluarray<range, ALGOIM_M>(true));
         if (alg::detail::maskEmpty(mask)) {
           if (0.0 < alg::bernstein::evalBernsteinPoly<range>(xarray, Point<range>(numbers::half))) {
-            quad = std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);// Inactive domain.
-            break;
+            return std::make_shared<ImplicitPolyReparam<range, range, S>>(order, reparam);// Inactive domain.
           }
         } else {
           quad->phi_.push_back(xarray, mask);
-- 
2.43.0

