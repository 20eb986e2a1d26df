"""A small faithful stand-in for the part of DOLFINx's mesh layer that qugar calls.

It builds real cell/facet connectivities from the given cells and nodes, renumbered and partitioned
the way the current `World` says: DOLFINx may order cells, nodes and facets arbitrarily and a
process sees only its owned cells plus ghosts. Connectivities and index maps exist only once they
have been created, as in DOLFINx.
"""
import sys
import types

import basix
import numpy as np

CELLNAME = {(1, 2): "interval", (2, 3): "triangle", (2, 4): "quadrilateral", (3, 4): "tetrahedron",
            (3, 8): "hexahedron"}


class World:
    """How the 'process' sees a mesh: permutations (callables n -> order), owned cells and ghosts."""

    def __init__(self, cell_perm=None, node_perm=None, facet_perm=None, owned=None, ghosts=(), offset=0,
                 facet_offset=0):
        self.cell_perm, self.node_perm, self.facet_perm = cell_perm, node_perm, facet_perm
        self.owned, self.ghosts, self.offset, self.facet_offset = owned, tuple(ghosts), offset, facet_offset


world = [World()]


class Comm:
    """A process of a communicator. Process 0 runs first; the others see what it shared."""

    def __init__(self, rank=0, size=1, root=None):
        self.rank, self.size, self.root = rank, size, root
        self.sent, self.recv, self.gathered = [], 0, None

    def bcast(self, obj, root=0):
        assert root == 0
        if self.rank == 0:
            self.sent.append(obj)
            return obj
        self.recv += 1
        return self.root.sent[self.recv - 1]


class AdjacencyList:
    def __init__(self, rows):
        self._rows = [np.array(r, dtype=np.int32) for r in rows]
        self.array = np.concatenate(self._rows) if self._rows else np.empty(0, np.int32)
        self.offsets = np.cumsum([0] + [len(r) for r in self._rows]).astype(np.int32)
        self.num_nodes = len(self._rows)

    def links(self, i):
        return self._rows[i]


class IndexMap:
    def __init__(self, n_local, n_ghost, n_global, offset):
        self.size_local, self.num_ghosts, self.size_global = n_local, n_ghost, n_global
        self.local_range = [offset, offset + n_local]
        self.ghosts = np.arange(n_ghost, dtype=np.int64) + (offset + n_local if offset == 0 else 0)

    def local_to_global(self, ids):
        ids = np.asarray(ids)
        out = np.empty(ids.shape, dtype=np.int64)
        for k, i in enumerate(ids):
            i = int(i)
            assert 0 <= i < self.size_local + self.num_ghosts, "local index out of range"
            out[k] = self.local_range[0] + i if i < self.size_local else self.ghosts[i - self.size_local]
        return out


def order(perm, n):
    return list(range(n)) if perm is None else list(perm(n))


class Topology:
    def __init__(self, tdim, conn, w, nvert):
        self.dim = tdim
        self.w = w
        self.global_conn = conn
        self.cell_name = CELLNAME[(tdim, nvert)]
        verts = conn[:, :nvert]
        owned = list(range(len(conn))) if w.owned is None else list(w.owned)
        owned = [owned[i] for i in order(w.cell_perm, len(owned))]
        loc = owned + list(w.ghosts)
        self.original_cell_index = np.array(loc, dtype=np.int64)
        self.n_owned = len(owned)
        ct = getattr(basix.CellType, self.cell_name)
        self.cell_type = ct
        sub = basix.topology(ct)[tdim - 1]
        key = lambda c, f: tuple(sorted(int(verts[c][v]) for v in sub[f]))  # noqa: E731
        glob = {}
        for c in range(len(conn)):
            for f in range(len(sub)):
                glob.setdefault(key(c, f), []).append(c)
        facets = []
        for c in loc:
            for f in range(len(sub)):
                k = key(c, f)
                if k not in facets:
                    facets.append(k)
        own = [k for k in facets if min(glob[k]) in set(owned)]
        own = [own[i] for i in order(w.facet_perm, len(own))]
        gh = [k for k in facets if k not in set(own)]
        self.n_facets_owned = len(own)
        facets = own + gh
        num = {k: i for i, k in enumerate(facets)}
        self.facet_keys = facets
        self.ext = [i for i in range(len(own)) if len(glob[facets[i]]) == 1]
        c2f = [[num[key(c, f)] for f in range(len(sub))] for c in loc]
        f2c = [[] for _ in facets]
        for i, row in enumerate(c2f):
            for f in row:
                if i not in f2c[f]:
                    f2c[f].append(i)
        self._all = {(tdim, tdim - 1): AdjacencyList(c2f), (tdim - 1, tdim): AdjacencyList(f2c)}
        self._made = set()
        self._ents = {tdim, 0}
        self._imaps = {tdim: IndexMap(len(owned), len(w.ghosts), len(conn), w.offset),
                       tdim - 1: IndexMap(len(own), len(gh), len(glob), w.facet_offset)}

    def create_entities(self, d):
        self._ents.add(d)

    def create_connectivity(self, a, b):
        self._made.add((a, b))
        self._ents |= {a, b}

    def connectivity(self, a, b):
        return self._all[(a, b)] if (a, b) in self._made else None

    def index_map(self, d):
        return self._imaps[d] if d in self._ents else None


class Geometry:
    def __init__(self, conn, nodes, topo, w, cmap):
        self.cmap = cmap
        used = []
        for c in topo.original_cell_index:
            for n in conn[c]:
                if n not in used:
                    used.append(int(n))
        used = [used[i] for i in order(w.node_perm, len(used))]
        self.input_global_indices = np.array(used, dtype=np.int64)
        pos = {n: i for i, n in enumerate(used)}
        nodes = nodes.reshape(len(nodes), -1)
        self.dim = nodes.shape[1]
        self.x = np.zeros((len(used), 3), dtype=nodes.dtype)
        if used:
            self.x[:, : self.dim] = nodes[used]
        self.dofmap = np.array([[pos[int(n)] for n in conn[c]] for c in topo.original_cell_index],
                               dtype=np.int32).reshape(len(topo.original_cell_index), conn.shape[1])
        self.dofmaps = lambda i=0: self.dofmap


class CppMesh:
    def __init__(self, topology, geometry, comm):
        self.topology, self.geometry, self.comm = topology, geometry, comm


calls = []


def create_mesh(comm, conn, cmap, nodes, partitioner=None, *a, **k):
    calls.append(dict(conn=conn.copy(), nodes=nodes.copy(), partitioner=partitioner))
    tdim, nvert = cmap.tdim, cmap.nvert
    assert conn.dtype == np.int64 and conn.flags.c_contiguous and conn.shape[1] == cmap.dim
    if comm.rank == 0:
        comm.gathered = (conn, nodes)
    else:  # the mesh is the union of what all processes provide
        assert len(conn) == 0 and len(nodes) == 0
        conn, nodes = comm.root.gathered
    w = world[0]
    topo = Topology(tdim, conn, w, nvert)
    return CppMesh(topo, Geometry(conn, nodes, topo, w, cmap), comm)


class Mesh:
    def __init__(self, cpp, domain=None):
        self._cpp_object, self._ufl_domain = cpp, domain
        self._topology, self._geometry = cpp.topology, cpp.geometry

    @property
    def topology(self):
        return self._topology

    @property
    def geometry(self):
        return self._geometry

    @property
    def comm(self):
        return self._cpp_object.comm

    def basix_cell(self):
        return self.topology.cell_type

    def ufl_domain(self):
        return self._ufl_domain


class MeshTags:
    def __init__(self, mesh, dim, entities, values):
        self.mesh, self.dim = mesh, dim
        self.indices, self.values = np.array(entities), np.array(values)

    def find(self, v):
        return self.indices[self.values == v]


def meshtags(mesh, dim, entities, values):
    e = np.asarray(entities)
    assert np.all(np.diff(e) > 0), "mesh tag entities must be sorted and unique"
    return MeshTags(mesh, dim, e, np.asarray(values))


def exterior_facet_indices(topology):
    assert topology.connectivity(topology.dim - 1, topology.dim) is not None, "facet-cell connectivity missing"
    return np.array(topology.ext, dtype=np.int32)


class _Cmap:
    def __init__(self, el):
        self.tdim = {"interval": 1, "triangle": 2, "quadrilateral": 2}.get(el.cell_type.name, 3)
        self.el = el
        self.nvert = len(basix.geometry(el.cell_type))
        self.dim = el.dim
        self.degree = el.degree
        self._cpp_object = self


class _UflMesh:
    def __init__(self, el, *a, **k):
        self._el = el

    def ufl_coordinate_element(self):
        return self._el


class GhostMode:
    class _M:
        def __init__(self, name):
            self.name = name

        def __repr__(self):
            return f"GhostMode.{self.name}"


for _n in ("none", "shared_facet", "shared_vertex"):
    setattr(GhostMode, _n, GhostMode._M(_n))


class _KDTree:
    def __init__(self, pts):
        self.p = np.asarray(pts)
        assert self.p.ndim == 2

    def query_pairs(self, r, output_type="set"):
        out = [(i, j) for i in range(len(self.p)) for j in range(i + 1, len(self.p))
               if np.linalg.norm(self.p[i] - self.p[j]) <= r]
        return np.array(out, dtype=np.int64).reshape(-1, 2) if output_type == "ndarray" else set(out)


def overlay():
    """Gives the stubbed modules (autostub.install must have run) this behaviour."""
    import dolfinx.cpp.mesh
    import dolfinx.cpp as dc
    import dolfinx.fem
    import dolfinx.mesh
    import mpi4py.MPI
    import scipy.spatial
    import ufl
    dolfinx.mesh.Mesh = Mesh
    dolfinx.mesh.MeshTags, dolfinx.mesh.meshtags = MeshTags, meshtags
    dolfinx.mesh.exterior_facet_indices = exterior_facet_indices
    dolfinx.mesh.GhostMode = dc.mesh.GhostMode = GhostMode
    dc.mesh.create_mesh = create_mesh
    dc.mesh.create_cell_partitioner = lambda mode, *a: ("partitioner", mode)
    dolfinx.fem.coordinate_element = lambda e, *a, **k: _Cmap(e)
    mpi4py.MPI.Comm = Comm
    sys.modules["mpi4py"].MPI = sys.modules["mpi4py.MPI"]
    ufl.Mesh = _UflMesh
    scipy.spatial.KDTree = scipy.spatial.cKDTree = _KDTree

    class _El:
        def __init__(self, cell, degree, shape, dtype, variant):
            if isinstance(cell, str):
                cell = getattr(basix.CellType, cell)
            # basix.ufl.element: unset means warped
            if variant in (None, basix.LagrangeVariant.unset):
                variant = basix.LagrangeVariant.gll_warped
            self.real = basix.create_element(basix.ElementFamily.P, cell, degree, variant)
            self.cell_type, self.degree, self.dim = cell, degree, self.real.dim
            self.shape = shape
            self.basix_element = self
            self.dtype = dtype

    import basix.ufl as bu
    bu.element = lambda family, cell, degree, lagrange_variant=None, dpc_variant=None, shape=None, \
        symmetry=None, discontinuous=False, dtype=None, **k: _El(cell, degree, shape, dtype, lagrange_variant)
    return types
