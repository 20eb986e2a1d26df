"""C21: exports to PyVista: what is exported lies where it belongs, with the identifiers of the cells and facets it belongs to, for
native domains and for meshes under every renumbering."""
import itertools
import sys

import numpy as np

import autostub
import fakedlf
import fakepv
import natmod
import pool
import vf
import worlds

path, err = natmod.build(False, extra=("-DNDEBUG",))
if path is None:
    print("ERROR: C21: the native module cannot be built\n" + err[:3000])
    sys.exit(3)
autostub.install(cpp=False)
fakedlf.overlay()
fakepv.overlay()
natmod.load(path, lambda m: None)
import basix  # noqa: E402
import dolfinx.plot  # noqa: E402
import qugar.cpp as cpp  # noqa: E402
import qugar.impl as qi  # noqa: E402
import qugar.mesh as qm  # noqa: E402
import qugar.plot as qp  # noqa: E402
import qugar.plot.pyvista_tools as qpt  # noqa: E402
import qugar.reparam as qr  # noqa: E402

CT = fakepv.CellType
T = vf.THOROUGH
chk = vf.Check(
    "C21", "exploration",
    "case = one export of one domain, grid, mesh or reparameterisation (level sets cutting cells, along grid lines, and everywhere or "
    "nowhere inside; native or over a mesh with one renumbering of cells, nodes and facets, with or without its empty cells; every "
    "combination of the options); every exported point, cell and facet is compared with the position of the cell or facet whose "
    "identifiers it carries, and the sets with what the domain reports",
    ["PyVista is a stand-in (lib/fakepv.py) that keeps VTK's orders of cells, edges and faces; nanobind, algoim and DOLFINx's mesh "
     "layer are stand-ins as in C20", "one process"])
CASES = []


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


def case(kind, key, fn):
    CASES.append((kind, f"{kind}/{key}", fn))


A = np.array


def comm():
    from mpi4py import MPI
    return MPI.Comm()


class Dom:
    def __init__(self, name, mk, dim, cells, lo, hi):
        self.name, self.mk, self.dim, self.cells, self.lo, self.hi = name, mk, dim, cells, A(lo, dtype=float), A(hi, dtype=float)
        self.br = [np.linspace(self.lo[d], self.hi[d], cells[d] + 1) for d in range(dim)]

    def box(self, c):
        i = np.unravel_index(c, self.cells, order="F")
        return A([self.br[d][i[d]] for d in range(self.dim)]), A([self.br[d][i[d] + 1] for d in range(self.dim)])

    def native(self):
        return cpp.create_unfitted_impl_domain(self.mk().cpp_object, cpp.create_cart_grid([np.array(b) for b in self.br]))

    def mesh(self, exclude):
        return qm.create_unfitted_impl_Cartesian_mesh(comm(), self.mk(), list(self.cells), xmin=self.lo, xmax=self.hi, exclude_empty_cells=exclude)


def box(o, a, b):
    return lambda: qi.create_box(cpp.create_affine_transformation(A(o), A([1.0, 0.0]), a, b))


def line(n, o):
    return lambda: (qi.create_line if len(n) == 2 else qi.create_plane)(A(o, dtype=float), A(n, dtype=float))


DOMS = [Dom("line", line((1.0, 0.375), (0.7, 0.0)), 2, (3, 2), (0, -0.5), (1, 1.5)),
        Dom("disk", lambda: qi.create_disk(0.4375, A([0.5, 0.53125])), 2, (3, 4), (0, 0), (1, 1.25)),
        Dom("along", line((1.0, 0.0), (0.5, 0.0)), 2, (4, 2), (0, 0), (1, 1)),
        Dom("along-", line((-1.0, 0.0), (0.5, 0.0)), 2, (4, 2), (0, 0), (1, 1)),
        Dom("along y", line((0.0, 1.0), (0.0, 0.5)), 2, (2, 4), (0, 0), (1, 1)),
        Dom("along -y", line((0.0, -1.0), (0.0, 0.5)), 2, (2, 4), (0, 0), (1, 1)),
        # the boundary crosses cells and lies in their facets
        Dom("box", box((0.75, 0.5), 0.25, 0.3), 2, (2, 2), (0, 0), (1, 1)),
        Dom("box y", box((0.5, 0.25), 0.3, 0.25), 2, (2, 2), (0, 0), (1, 1)),
        Dom("full", line((1.0, 0.0), (5.0, 0.0)), 2, (2, 2), (0, 0), (1, 1)),
        Dom("empty", line((1.0, 0.0), (-5.0, 0.0)), 2, (2, 2), (0, 0), (1, 1)),
        Dom("plane", line((1.0, 0.25, 0.5), (0.84375, 0.0, 0.0)), 3, (2, 2, 2), (0, 0, 0), (1, 0.5, 2)),
        Dom("along3", line((0.0, 1.0, 0.0), (0.0, 0.5, 0.0)), 3, (1, 2, 2), (0, 0, 0), (1, 1, 1)),
        Dom("sphere", lambda: qi.create_sphere(0.625, A([0.5, 0.5, 0.5])), 3, (3, 2, 2), (0, 0, 0), (1, 1, 1))]
if T:
    DOMS += [Dom("disk2", lambda: qi.create_disk(0.8, A([0.1, 0.2])), 2, (5, 4), (-1, -1), (1, 1)),
             Dom("line2", line((-0.5, 1.0), (0.2, 0.3)), 2, (1, 5), (0, 0), (1, 1)),
             Dom("sphere2", lambda: qi.create_sphere(0.8, A([0.1, 0.2, 0.3])), 3, (2, 3, 3), (-1, -1, -1), (1, 1, 1))]
DLF = {2: [(1, 0), (0, 0), (0, 1), (1, 1)], 3: [(2, 0), (1, 0), (0, 0), (0, 1), (1, 1), (2, 1)]}  # (direction, side) of the facets of a cell
for dim, ref in ((2, basix.CellType.quadrilateral), (3, basix.CellType.hexahedron)):  # as basix has them
    g, tp = basix.geometry(ref), basix.topology(ref)[dim - 1]
    for (d, s), f in zip(DLF[dim], tp):
        assert (g[f][:, d] == s).all()
PERM = {"id": None, "rev": worlds.rev, "mix": worlds.mix}
SOURCES = [("native", None)] + [(f"{c}/{n}/{f}{'/all' if not ex else ''}", (dict(cell_perm=PERM[c], node_perm=PERM[n], facet_perm=PERM[f]), ex))
                                for c, n, f in (("id", "id", "id"), ("rev", "mix", "mix"), ("mix", "rev", "id"), ("mix", "mix", "rev")) for ex in (True, False)]


def source(D, s):
    """Domain to export and its native domain."""
    if s is None:
        d = D.native()
        return d, d
    worlds.use(s[0])
    m = D.mesh(s[1])
    return m, m.cpp_unf_domain_object


def dlf_box(m, c):
    x = m.geometry.x[np.asarray(m.geometry.dofmap)[c]][:, :m.topology.dim]
    return x.min(0), x.max(0)


def near(a, b):
    return np.shape(a) == np.shape(b) and bool(np.all(np.abs(np.asarray(a, float) - np.asarray(b, float)) < 1e-10))


def check_cell_ids(D, m, g, s, what):
    lex = g.cell_data["Lexicographical cell ids"]
    if s is None:
        need("DOLFINx local cell ids" not in g.cell_data, f"{what}: DOLFINx ids of a native grid")
        return
    loc, glo = g.cell_data["DOLFINx local cell ids"], g.cell_data["DOLFINx global cell ids"]
    for a, b, c in set(zip(lex.tolist(), loc.tolist(), glo.tolist())):
        need(0 <= b < m.num_local_cells and near(np.hstack(dlf_box(m, b)), np.hstack(D.box(a))), f"{what}: cell {a} has the DOLFINx id {b}, of another cell")
        need(c == m.topology.index_map(D.dim).local_to_global(A([b], dtype=np.int32))[0], f"{what}: local id {b} and global id {c}")


def vertices(g, what):
    need(all(t == CT.VERTEX for t in g.types_) and [c.tolist() for c in g.cells_] == [[i] for i in range(len(g.points))], f"{what}: the cells are not the points, in order")
    return g.points


def same_points(D, got, want, what):
    """got, want: lists of (cell, facet, coordinates, weight, normal), as multisets."""
    need(len(got) == len(want), f"{what}: {len(got)} points instead of {len(want)}")
    key = lambda r: (r[0], r[1], tuple(np.round(r[2], 7)), round(r[3], 9))  # noqa: E731
    for a, b in zip(sorted(got, key=key), sorted(want, key=key)):
        need(a[:2] == b[:2] and near(a[2], b[2]) and abs(a[3] - b[3]) < 1e-10 and near(a[4], b[4]), f"{what}: {a} instead of {b}")


def pad(v, dim):
    return tuple(float(x) for x in v) + (0.0,) * (3 - dim)


def quad_case(D, s, n):
    dom, nat = source(D, s)
    k = {} if n is None else dict(n_pts_dir=n)
    mb = qp.quadrature_to_PyVista(dom, **k)
    n = n or 4
    need(set(mb) == {"Cut cells quadrature", "Unfitted boundary quadrature", "Cut/unfitted facets quadrature"}, f"blocks {list(mb)}")
    cut = [int(c) for c in nat.get_cut_cells()]
    for name, quad in (("Cut cells quadrature", lambda c: cpp.create_quadrature(nat, c, n)),
                       ("Unfitted boundary quadrature", lambda c: cpp.create_unfitted_bound_quadrature(nat, c, n, True, True))):
        g, bnd, want = mb[name], name.startswith("Unf"), []
        p = vertices(g, name)
        need(g.points.dtype == np.float64, f"{name}: coordinates of type {g.points.dtype}")
        for c in cut:
            q = quad(A([c]))
            lo, hi = D.box(c)
            for i in range(len(q.weights)):
                want.append((c, -1, pad(lo + q.points[i] * (hi - lo), D.dim), float(q.weights[i]), pad(q.normals[i], D.dim) if bnd else ()))
        lex, w = g.cell_data["Lexicographical cell ids"], g.cell_data["Weights"]
        need(bnd == ("Normals" in g.cell_data), f"{name}: normals")
        got = [(int(lex[i]), -1, tuple(p[i]), float(w[i]), tuple(g.cell_data["Normals"][i]) if bnd else ()) for i in range(len(p))]
        same_points(D, got, want, name)
        check_cell_ids(D, dom, g, s, name)
    name = "Cut/unfitted facets quadrature"
    g, want = mb[name], []
    p = vertices(g, name)
    fac = sorted({(int(c), int(f)) for get in (nat.get_cut_facets, nat.get_unf_bdry_facets) for c, f in zip(*get())})
    for c, f in fac:
        q = cpp.create_facets_quadrature_exterior_integral(nat, A([c]), A([f], dtype=np.int32), n)
        lo, hi = D.box(c)
        act = [d for d in range(D.dim) if d != f // 2]
        for i in range(len(q.weights)):
            x = np.where(np.arange(D.dim) == f // 2, hi if f % 2 else lo, 0.0)
            x[act] = lo[act] + q.points[i] * (hi - lo)[act]
            want.append((c, f, pad(x, D.dim), float(q.weights[i]), ()))
    lex, w, lf = g.cell_data["Lexicographical cell ids"], g.cell_data["Weights"], g.cell_data["Lexicographical local facets ids"]
    same_points(D, [(int(lex[i]), int(lf[i]), tuple(p[i]), float(w[i]), ()) for i in range(len(p))], want, name)
    check_cell_ids(D, dom, g, s, name)
    check_facet_ids(D, g, s, name)


def check_facet_ids(D, g, s, what):
    if s is None:
        need("DOLFINx local facets ids" not in g.cell_data, f"{what}: DOLFINx ids of a native grid")
        return
    for a, b in set(zip(g.cell_data["Lexicographical local facets ids"].tolist(), g.cell_data["DOLFINx local facets ids"].tolist())):
        need(0 <= b < 2 * D.dim and DLF[D.dim][b] == divmod(a, 2), f"{what}: facet {a} has the DOLFINx id {b}")


def check_box(D, pts, c, f, what):
    """The points are the corners of the cell, or of its facet."""
    lo, hi = D.box(c)
    want = [v for v in itertools.product(*zip(lo, hi)) if f is None or v[f // 2] == (hi if f % 2 else lo)[f // 2]]
    want = sorted(pad(v, D.dim) for v in want)
    need(near(sorted(tuple(float(x) for x in p) for p in np.round(pts, 12)), want), f"{what}: cell {c}{'' if f is None else f', facet {f}'} is exported at another place")


CELL = {"full": 0, "cut": 1, "empty": 2}


def classes(nat):
    return {int(c): k for k, get in (("full", nat.get_full_cells), ("cut", nat.get_cut_cells), ("empty", nat.get_empty_cells)) for c in get()}


def domain_case(D, s, opts):
    dom, nat = source(D, s)
    g = qp.unfitted_domain_to_PyVista(dom, **opts)
    inc = dict(dict(cut=True, full=True, empty=False), **opts)
    cls = classes(nat)
    there = set(cls) if s is None or not s[1] else {c for c in cls if cls[c] != "empty"}
    want = {c for c in there if inc[cls[c]]}
    lex, st = g.cell_data["Lexicographical cell ids"], g.cell_data["Cell status (0: full, 1: cut, 2: empty)"]
    need(sorted(lex.tolist()) == sorted(want), f"cells {lex.tolist()} instead of {sorted(want)}")
    for i, c in enumerate(lex.tolist()):
        need(st[i] == CELL[cls[c]], f"the status of cell {c} is {st[i]}, but it is {cls[c]}")
        check_box(D, g.corners(i), c, None, "cell")
    check_cell_ids(D, dom, g, s, "cells")


def facets_case(D, s, opts):
    dom, nat = source(D, s)
    g = qp.unfitted_domain_facets_to_PyVista(dom, **opts)
    inc = dict(dict(cut=True, full=True, empty=False), **opts)
    cls, want = classes(nat), {}
    for k in ("full", "cut", "empty"):
        if not inc[k]:
            continue
        if s is None:
            pairs = list(zip(*getattr(nat, f"get_{k}_facets")()))
        else:
            f = getattr(dom, f"get_{k}_facets")()
            pairs = []
            for c, lf in zip(f.cell_ids, f.local_facet_ids):
                b = np.hstack(dlf_box(dom, c))
                d, sd = DLF[D.dim][lf]
                pairs.append((next(i for i in cls if near(np.hstack(D.box(i)), b)), 2 * d + sd))
        for c, f in pairs:
            want[int(c), int(f)] = CELL[k]
    lex, lf = g.cell_data["Lexicographical cell ids"], g.cell_data["Lexicographical local facets ids"]
    st, cst = g.cell_data["Facet status (0: full, 1: cut, 2: empty)"], g.cell_data["Cell status (0: full, 1: cut, 2: empty)"]
    got = list(zip(lex.tolist(), lf.tolist()))
    need(sorted(got) == sorted(want), f"facets (cell, local facet) {sorted(set(got) ^ set(want))[:6]} are missing or should not be there")
    for i, (c, f) in enumerate(got):
        need(st[i] == want[c, f], f"the status of facet {f} of cell {c} is {st[i]} instead of {want[c, f]}")
        need(cst[i] == CELL[cls[c]], f"the status of the cell of facet {f} of cell {c} is {cst[i]}")
        check_box(D, g.corners(i), c, f, "facet")
    check_cell_ids(D, dom, g, s, "facets")
    check_facet_ids(D, g, s, "facets")


def grid_case(D, s):
    if s is None:
        o, there = cpp.create_cart_grid([np.array(b) for b in D.br]), range(int(np.prod(D.cells)))
    else:
        worlds.use(s[0])
        o = D.mesh(s[1])
        cls = classes(o.cpp_unf_domain_object)
        there = [c for c in cls if not s[1] or cls[c] != "empty"]
    for export in (qp.cart_grid_tp_to_PyVista, qpt.grid_tp_to_PyVista):
        g = export(o)
        lex = g.cell_data["Lexicographical cell ids"].tolist()
        need(sorted(lex) == sorted(there), f"cells {lex}")
        for i, c in enumerate(lex):
            check_box(D, g.corners(i), c, None, "cell")
        check_cell_ids(D, o, g, s, "cells")


def lex_of_vtk(dim, p):
    """Positions (i, j, k) of the nodes of VTK's Lagrange cells: corners, edges, faces, interior."""
    r, e = range(1, p), []
    if dim == 1:
        return [(0,), (p,)] + [(i,) for i in r]
    if dim == 2:
        return ([(0, 0), (p, 0), (p, p), (0, p)] + [(i, 0) for i in r] + [(p, j) for j in r] + [(i, p) for i in r] + [(0, j) for j in r]
                + [(i, j) for j in r for i in r])
    q = [(0, 0), (p, 0), (p, p), (0, p)]
    e = [(*c, k) for k in (0, p) for c in q]
    for k in (0, p):
        e += [(i, 0, k) for i in r] + [(p, j, k) for j in r] + [(i, p, k) for i in r] + [(0, j, k) for j in r]
    e += [(*c, k) for c in ((0, 0), (p, 0), (p, p), (0, p)) for k in r]
    e += [(i, j, k) for i in (0, p) for k in r for j in r] + [(i, j, k) for j in (0, p) for k in r for i in r] + [(i, j, k) for k in (0, p) for j in r for i in r]
    return e + [(i, j, k) for k in r for j in r for i in r]


def reparam_case(D, deg, ls):
    nat = D.native()
    o = (cpp.create_reparameterization_levelset if ls else cpp.create_reparameterization)(nat, deg + 1, True)
    mb = qp.reparam_mesh_to_PyVista(o)
    need(set(mb) == {"reparam", "wirebasket"}, f"blocks {list(mb)}")
    dm = D.dim - (1 if ls else 0)
    types = {1: (CT.LINE, CT.LAGRANGE_CURVE), 2: (CT.QUAD, CT.LAGRANGE_QUADRILATERAL), 3: (CT.HEXAHEDRON, CT.LAGRANGE_HEXAHEDRON)}
    for name, conn, d in (("reparam", np.asarray(o.cells_conn), dm), ("wirebasket", np.asarray(o.wirebasket_conn), 1)):
        g = mb[name]
        need(near(g.points[:, :D.dim], o.points) and near(g.points[:, D.dim:], np.zeros((len(g.points), 3 - D.dim))), f"{name}: other points")
        need(g.n_cells == len(conn) and all(t == types[d][deg > 1] for t in g.types_), f"{name}: number or types of cells")
        pos = [sum(t[k] * (deg + 1)**k for k in range(d)) for t in lex_of_vtk(d, deg)]
        for i in range(len(conn)):
            need(g.cells_[i].tolist() == conn[i][pos].tolist(), f"{name}: the nodes of cell {i} are not in the order of VTK")


def wrapper_reparam(D, ls):
    calls = []

    class M:
        pass
    m = D.mesh(False)
    r = qr.create_reparam_mesh(m, degree=2, levelset=ls)

    def create(wirebasket=False):
        calls.append(wirebasket)
        return ("wire" if wirebasket else "mesh")

    real = type(r).create_mesh
    pts = {"mesh": np.zeros((2, 3)), "wire": np.ones((2, 3))}
    old = dolfinx.plot.vtk_mesh
    try:
        type(r).create_mesh = lambda self, wirebasket=False: create(wirebasket)
        dolfinx.plot.vtk_mesh = lambda x: (A([2, 0, 1]), A([3], dtype=np.uint8), pts[x])
        mb = qp.reparam_mesh_to_PyVista(r)
    finally:
        type(r).create_mesh = real
        dolfinx.plot.vtk_mesh = old
    need(near(mb["reparam"].points, pts["mesh"]) and near(mb["wirebasket"].points, pts["wire"]), "the blocks are not the mesh and its wirebasket")


worlds.use({})
OPTS = [{}] + [dict(cut=a, full=b, empty=c) for a, b, c in itertools.product((True, False), repeat=3)]
for D in DOMS:
    for sn, s in SOURCES:
        if D.name == "empty" and s is not None and s[1]:
            continue  # no cell left
        for n in (None, 1, 2) + ((3, 5) if T else ()):
            if n is None and D.dim == 3 and sn not in ("native", "rev/mix/mix"):
                continue
            case("quadrature", f"{D.name}/{sn}/{n}", lambda D=D, s=s, n=n: quad_case(D, s, n))
        for o in OPTS:
            on = "".join("+-"[not v] + k for k, v in o.items()) or "default"
            case("domain", f"{D.name}/{sn}/{on}", lambda D=D, s=s, o=o: domain_case(D, s, o))
            case("facets", f"{D.name}/{sn}/{on}", lambda D=D, s=s, o=o: facets_case(D, s, o))
        case("grid", f"{D.name}/{sn}", lambda D=D, s=s: grid_case(D, s))
    if D.name != "empty":
        for deg, ls in itertools.product((1, 2, 3) + ((4,) if T else ()), (False, True)):
            if not (ls and D.name in ("full", "along", "along3")):
                case("reparam", f"{D.name}/{deg}/{ls}", lambda D=D, deg=deg, ls=ls: reparam_case(D, deg, ls))
        for ls in (False, True):
            case("reparam-mesh", f"{D.name}/{ls}", lambda D=D, ls=ls: wrapper_reparam(D, ls))

if vf.ONLY:
    CASES = [c for c in CASES if c[1] == vf.ONLY]


def work(i, at):
    kind, key, fn = CASES[i]
    at(key)
    msg = None
    try:
        worlds.use({})
        fn()
    except Bad as e:
        msg = str(e)
    except Exception as e:  # noqa: BLE001
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        msg = f"unexpected {type(e).__name__}: {e} at {tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}"
    yield ("case", kind, key, msg)


for r in pool.run(len(CASES), work, tick=chk.at):
    if r[0] == "crash":
        chk.case("crash", r[1])
        chk.fail(r[1], r[2])
    else:
        chk.case(r[1], r[2])
        if r[3]:
            chk.fail(r[2], r[3])
chk.finish()
