"""Stand-ins for the coefficient packing: a domain that knows the class and the (recognisable) quadrature
points of every entity, meshes with facet orientations, and what kernels must find for an entity.
Needs the overlays of autostub, fakedlf and fakeufl."""
import itertools
import types

import numpy as np

from qugar.dolfinx.integral_data import IntegralData
from qugar.dolfinx.quadrature_data import QuadratureData
from qugar.mesh.mesh_facets import MeshFacets
from qugar.quad import CustomQuad, CustomQuadFacet, CustomQuadUnfBoundary
from refcells import by_weights, ffcx, subs


def npts(entity, degree):
    """Number of points of an entity: 0, 1, 2, 3 ... depending on entity and degree."""
    return (sum((k + 1) * int(x) for k, x in enumerate(entity)) * 3 + degree * 2 + 1) % 5


def points(entity, degree, dim, salt):
    n = npts(entity, degree)
    seed = sum((7 ** k) * (int(x) + 1) for k, x in enumerate(entity)) + 31 * degree + 101 * salt
    v = (np.arange(n * dim) * 37 + seed * 13) % 127
    return (v / 256.0).reshape(n, dim)  # exact in single precision, inside every simplex (dim <= 2)


def weights(entity, degree, salt=0):
    return points(entity, degree, 1, 11 + salt)[:, 0] + 0.125


class Domain:
    """An unfitted domain that knows the class of every entity."""

    def __init__(self, tdim, cells, facets_ext, facets_int):
        self.tdim, self.cells, self.fe, self.fi = tdim, cells, facets_ext, facets_int
        self.log = []

    def _c(self, k):
        return np.array(sorted(c for c, s in self.cells.items() if s == k), dtype=np.int32)

    def get_cut_cells(self):
        return self._c("cut")

    def get_full_cells(self):
        return self._c("full")

    def get_empty_cells(self):
        return self._c("empty")

    def _f(self, k, ext_integral):
        d = self.fe if ext_integral else self.fi
        f = sorted(f for f, s in d.items() if s == k)
        return MeshFacets(np.array([c for c, _ in f], dtype=np.int32), np.array([x for _, x in f], dtype=np.int32))

    def get_cut_facets(self, ext_integral=True):
        return self._f("cut", ext_integral)

    def get_full_facets(self, ext_integral=True):
        return self._f("full", ext_integral)

    def get_empty_facets(self, ext_integral=True):
        return self._f("empty", ext_integral)

    @staticmethod
    def _cat(parts, dim):
        return np.concatenate(parts) if parts else np.zeros((0, dim))

    def create_quad_custom_cells(self, degree, cells, tag=None):
        cells = np.asarray(cells)
        assert all(self.cells[int(c)] == "cut" for c in cells), "quadrature asked for a cell that is not cut"
        t = self.tdim
        return CustomQuad(cells, np.array([npts((c,), degree) for c in cells], dtype=np.int32),
                          self._cat([points((c,), degree, t, 0) for c in cells], t),
                          self._cat([weights((c,), degree) for c in cells], 1).reshape(-1))

    def create_quad_unf_boundaries(self, degree, cells, tag=None):
        cells = np.asarray(cells)
        assert all(self.cells[int(c)] == "cut" for c in cells), "boundary quadrature asked for a cell that is not cut"
        t = self.tdim
        return CustomQuadUnfBoundary(cells, np.array([npts((c,), degree) for c in cells], dtype=np.int32),
                                     self._cat([points((c,), degree, t, 1) for c in cells], t),
                                     self._cat([weights((c,), degree, 1) for c in cells], 1).reshape(-1),
                                     self._cat([points((c,), degree, t, 2) for c in cells], t))

    def create_quad_custom_facets(self, degree, facets, exterior, tag=None):
        d = self.fe if exterior else self.fi
        fs = [(int(a), int(b)) for a, b in zip(facets.cell_ids, facets.local_facet_ids)]
        assert all(d[f] == "cut" for f in fs), "quadrature asked for a facet that is not cut"
        k, s = self.tdim - 1, 3 + bool(exterior)
        return CustomQuadFacet(facets, np.array([npts(f, degree) for f in fs], dtype=np.int32),
                               self._cat([points(f, degree, k, s) for f in fs], k),
                               self._cat([weights(f, degree, s) for f in fs], 1).reshape(-1))


NPERM = {2: 2, 3: 6, 4: 8}
KIND = {2: "interval", 3: "triangle", 4: "quadrilateral"}


class Mesh:
    def __init__(self, name, n_cells):
        self.name = name
        vs, geom = subs(name)
        self.tdim = geom.shape[1]
        nv = len(vs[0])
        self.kind = KIND[nv]
        self.perms = np.array([[(3 * c + 5 * f + 1) % NPERM[nv] for f in range(len(vs))] for c in range(n_cells)],
                              dtype=np.uint8)
        self.made = False
        self.topology = types.SimpleNamespace(
            cell_type=types.SimpleNamespace(name=name), dim=self.tdim,
            create_entity_permutations=self._make, get_facet_permutations=self._get)

    def _make(self):
        self.made = True

    def _get(self):
        assert self.made, "facet permutations have not been created"
        return self.perms.reshape(-1).copy()


class Table:
    def __init__(self, dtype):
        self.dtype = dtype


def rules(spec):
    """spec: tuple of (degree, unfitted). The rules are distinct objects in a given order."""
    return [QuadratureData(f"q{i}", d, u, None) for i, (d, u) in enumerate(spec)]


REAL = {np.float32: np.float32, np.float64: np.float64, np.complex64: np.float32, np.complex128: np.float64}


def itg_data(name, kind, ids, tdim, mixed, spec, dt):
    return IntegralData(name, list(ids), kind, tdim, mixed, {q: [Table(REAL[dt])] for q in rules(spec)})


def expected(kind, mixed, ent, spec, mesh, unf_dom):
    """What the kernel must find for a cut entity, rule after rule."""
    out = []
    t = mesh.tdim
    for degree, unf in spec:
        r = {}
        if kind == "cell":
            e = (ent,)
            r["points"] = points(e, degree, t, 1 if unf else 0)
            r["weights"] = weights(e, degree, 1 if unf else 0)
            if unf:
                r["normals"] = points(e, degree, t, 2)
        else:
            sides = ent if kind == "interior_facet" else (ent,)
            f0 = tuple(int(x) for x in sides[0])
            s = 4 if kind == "exterior_facet" else 3
            fp = points(f0, degree, t - 1, s)

            def at(side):
                c, f = (int(x) for x in side)
                p = fp
                if kind == "interior_facet" or mixed:
                    p = ffcx(mesh.kind, fp, int(mesh.perms[c, f])) if len(fp) else fp
                return by_weights(mesh.name, f, p)

            r["points"] = at(sides[0])
            if kind == "interior_facet":
                r["points_s1"] = at(sides[1])
            if mixed:
                r["points_facet"] = fp
            r["weights"] = weights(f0, degree, s)
        out.append(r)
    return out


def decorate(d, tdim, ents_pool):
    """Other entities of the domain, of every class, which the integral does not concern."""
    for k, (e, s) in enumerate(zip(ents_pool, itertools.cycle(("cut", "empty", "full")))):
        d.setdefault(e, s)
    return d


def old_coeffs(n_rows, cs, dt, salt=0):
    if cs == 0:
        return np.zeros((0, 0), dtype=dt)
    v = (np.arange(n_rows * cs) + 1 + 1000 * salt).reshape(n_rows, cs).astype(dt)
    if np.dtype(dt).kind == "c":
        v = v + 1j * (v.real + 0.5)
    return np.ascontiguousarray(v.astype(dt))


def setup(kind, name, ents, states):
    """Domain with the entities of the integral in their classes, and decoys."""
    mesh = Mesh(name, 40)
    cells, fe, fi = {}, {}, {}
    if kind == "cell":
        cells = decorate(dict(zip(ents, states)), mesh.tdim, [30, 31, 32])
    elif kind == "exterior_facet":
        fe = decorate(dict(zip(ents, states)), mesh.tdim, [(30, 0), (31, 1), (32, 2)])
        fi = {e: "empty" if s == "cut" else "cut" for e, s in fe.items()}  # the other kind: not to be asked
    else:
        fi = {}
        for (a, b), s in zip(ents, states):
            fi[a] = s
            fi[b] = s
        fi = decorate(fi, mesh.tdim, [(30, 0), (31, 1), (32, 2)])
        fe = {e: "empty" if s == "cut" else "cut" for e, s in fi.items()}
    return mesh, Domain(mesh.tdim, cells, fe, fi)


def dom_array(kind, ents):
    if kind == "cell":
        return np.array(ents, dtype=np.int32)
    if kind == "exterior_facet":
        return np.array(ents, dtype=np.int32).reshape(-1, 2)
    return np.array(ents, dtype=np.int32).reshape(-1, 2, 2)


def entities(kind, n, order):
    if kind == "cell":
        e = [4, 9, 2, 17, 11][:n]
    elif kind == "exterior_facet":  # cells with several facets, facet numbers crossing
        e = [(4, 2), (9, 0), (4, 0), (2, 1), (9, 2)][:n]
    else:
        e = [((4, 2), (9, 0)), ((9, 2), (4, 0)), ((4, 1), (2, 1)), ((2, 0), (17, 2)), ((2, 2), (9, 1))][:n]
    if order == "sorted":
        e = sorted(e)
    elif order == "rev":
        e = e[::-1]
    return e
