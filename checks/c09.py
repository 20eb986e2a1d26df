"""C09: identifier maps, Cartesian geometry, boundary faces and merging of nodes, over all small grids,
active-cell subsets, numberings, partitions and ranks."""
import itertools

import numpy as np

import autostub
import fakedlf
import vf
import worlds

autostub.install()
fakedlf.overlay()
import basix  # noqa: E402
import qugar.cpp  # noqa: E402
import qugar.mesh.mesh as MM  # noqa: E402
import qugar.mesh.tp_mesh as TM  # noqa: E402
import qugar.mesh.unfitted_cart_mesh as UM  # noqa: E402
from dolfinx.cpp.mesh import GhostMode  # noqa: E402

chk = vf.Check(
    "C09", "exploration",
    "one case = one query on one mesh (grid, degree, active subset) under one renumbering, partition "
    "and rank, or one merging of one arrangement of nodes; non-trivial: the mesh has more than one cell",
    ["DOLFINx's mesh layer is a stand-in that builds real connectivities with arbitrary numbering, "
     "ownership and ghosts; the coordinate maps of cells are evaluated with the real basix",
     "scipy's KDTree is a stand-in that compares all pairs"])


class Grid:
    def __init__(self, breaks):
        self.cell_breaks = [np.array(b, dtype=np.float64) for b in breaks]
        self.dim = len(breaks)
        self.num_cells_dir = np.array([len(b) - 1 for b in breaks], dtype=np.int32)


grids = []


def create_cart_grid(breaks):
    grids.append(Grid(breaks))
    return grids[-1]


qugar.cpp.create_cart_grid = create_cart_grid


def lexcells(n):
    return [tuple(reversed(t)) for t in itertools.product(*[range(k) for k in reversed(n)])]


def comms():
    yield "seq", lambda: (None, fakedlf.Comm())


XI = {1: [(0.0,), (1.0,), (0.25,), (0.7,)],
      2: [(0, 0), (1, 0), (0, 1), (1, 1), (0.25, 0.6), (0.9, 0.3)],
      3: [(0, 0, 0), (1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1), (0.25, 0.6, 0.8), (0.9, 0.3, 0.1)]}
_tab = {}


def geom(m, c):
    """Images of XI in the cell c (real basix element of the mesh's coordinate map)."""
    cmap = m.geometry.cmap
    tdim = m.topology.dim
    k = id(cmap.el.real), tdim
    if k not in _tab:
        _tab[k] = (cmap.el.real, cmap.el.real.tabulate(0, np.array(XI[tdim], dtype=float).reshape(-1, tdim))[0, :, :, 0])
    return _tab[k][1] @ m.geometry.x[m.geometry.dofmap[c]][:, : m.geometry.dim]


def ids_checks(m, w, cells, orig_nodes_xyz=None, all_cells=None, all_nodes=None, node_rep=None):
    """cells: original id of every local cell (oracle). all_*: all the valid original ids."""
    n = len(cells)
    chk.case("cell-ids", w, n > 1)
    loc = np.arange(n, dtype=np.int32)
    for sel in (loc, loc[::-1].copy(), loc[:0], loc[-1:], np.concatenate((loc, loc))):
        keep = sel.copy()
        ok, o = chk.guard(w + ":orig", m.get_original_cell_ids, sel)
        if ok:
            chk.check(list(o) == [cells[i] for i in sel], w + ":orig", f"original ids of {sel} are {o}, expected {[cells[i] for i in sel]}")
            chk.check(o.dtype == np.int64, w + ":orig", f"original cell ids have type {o.dtype}")
        chk.check(np.array_equal(sel, keep), w + ":orig", "the argument was changed")
    # every original id, present, inactive or foreign, in several orders and repeated
    ids = np.array(all_cells, dtype=np.int64)
    inv = {c: i for i, c in enumerate(cells)}
    for sel in (ids, ids[::-1].copy(), ids[:0], ids[:1], np.concatenate((ids, ids))):
        keep = sel.copy()
        ok, o = chk.guard(w + ":local", m.get_DOLFINx_local_cell_ids, sel)
        if ok:
            chk.check([int(x) for x in o] == [inv.get(int(c), -1) for c in sel] and o.dtype == np.int32, w + ":local",
                      f"local ids of {sel} are {o}, expected {[inv.get(int(c), -1) for c in sel]}")
        chk.check(np.array_equal(sel, keep), w + ":local", "the argument was changed")
    im = m.topology.index_map(m.topology.dim)
    if n:
        pres = np.array(cells, dtype=np.int64)
        ok, g = chk.guard(w + ":global", m.get_DOLFINx_global_cell_ids, pres)
        chk.check(not ok or list(g) == list(im.local_to_global(loc)), w + ":global", f"global ids are {g}")
        ok, g = chk.guard(w + ":l2g", m.get_DOLFINx_local_to_global_cell_ids, loc)
        chk.check(not ok or list(g) == list(im.local_to_global(loc)), w + ":l2g", f"global ids are {g}")
    ok, a = chk.guard(w + ":all", m.get_all_original_cell_ids)
    chk.check(not ok or list(a) == cells[: im.size_local], w + ":all", f"all original ids are {a}")
    chk.check(int(m.num_local_cells) == im.size_local and int(m.num_global_cells) == im.size_global, w, "numbers of cells")
    # nodes
    nn = len(m.geometry.x)
    chk.case("node-ids", w, nn > 2)
    ln = np.arange(nn, dtype=np.int32)
    for sel in (ln, ln[::-1].copy(), ln[:0]):
        ok, o = chk.guard(w + ":orign", m.get_original_node_ids, sel)
        if ok:
            good = len(o) == len(sel) and all(0 <= int(i) < len(orig_nodes_xyz) for i in o)
            chk.check(good, w + ":orign", f"original node ids {o}")
            if good and len(sel):
                chk.check(np.allclose(orig_nodes_xyz[o], m.geometry.x[sel][:, : orig_nodes_xyz.shape[1]], atol=1e-6, rtol=1e-6),
                          w + ":orign", f"nodes {sel} are not where their original nodes {o} are")
                ok, b = chk.guard(w + ":noderound", m.get_DOLFINx_local_node_ids, o)
                chk.check(not ok or list(b) == list(sel), w + ":noderound", f"local(original({sel})) = {b}")
    ids = np.arange(len(orig_nodes_xyz), dtype=np.int64)
    for sel in (ids, ids[::-1].copy()):
        ok, o = chk.guard(w + ":localn", m.get_DOLFINx_local_node_ids, sel)
        if not ok:
            continue
        chk.check(o.dtype == np.int32 and len(o) == len(sel), w + ":localn", "type or length of the local node ids")
        for i, l in zip(sel, o):
            if node_rep is None:
                want = [k for k in ln if m.geometry.input_global_indices[k] == i]
                good = (l == want[0]) if want else l == -1
            else:
                near = [k for k in ln if np.linalg.norm(m.geometry.x[k][: orig_nodes_xyz.shape[1]] - orig_nodes_xyz[i]) < node_rep]
                good = (l in near) if near else l == -1
            chk.check(good, w + ":localn", f"original node {i} has local id {l}")
    for c in range(n):
        ok, f = chk.guard(w + ":cellfacets", m.get_cell_facets, c)
        chk.check(not ok or list(f) == list(m.topology._all[(m.topology.dim, m.topology.dim - 1)].links(c)), w + ":cellfacets", "facets of a cell")


def cart_checks(m, w, br, active, ghosts):
    """A Cartesian mesh: geometry, tensor indices, boxes, faces."""
    n = tuple(len(b) - 1 for b in br)
    dim = len(n)
    lex = lexcells(n)
    act = list(range(len(lex))) if active is None else list(active)
    cells = [act[int(i)] for i in m.topology.original_cell_index]
    tol = 1e-12 if m.dtype == np.float64 else 1e-5
    span = max(abs(b).max() for b in br)
    for i, c in enumerate(cells):
        t = lex[c]
        lo = np.array([br[d][t[d]] for d in range(dim)])
        hi = np.array([br[d][t[d] + 1] for d in range(dim)])
        want = lo + np.array(XI[dim], dtype=float).reshape(-1, dim) * (hi - lo)
        chk.case("cell-geometry", f"{w}:{c}", len(lex) > 1)
        chk.check(np.allclose(geom(m, i), want, atol=tol * span, rtol=0), w + ":geometry",
                  f"cell {i} (original {c}) maps to {geom(m, i).tolist()} instead of {want.tolist()}"[:300])
        ok, ti = chk.guard(w + ":tensor", m.get_cell_tensor_index, np.int32(i))
        chk.check(not ok or tuple(int(x) for x in ti) == t, w + ":tensor", f"tensor index of original cell {c} is {ti}")
        if hasattr(m, "get_cell_bbox"):
            ok, b = chk.guard(w + ":bbox", m.get_cell_bbox, np.int32(i))
            chk.check(not ok or (b.shape == (2, dim) and np.allclose(b, [lo, hi], atol=tol * span, rtol=0) and b.dtype == m.dtype),
                      w + ":bbox", f"box of original cell {c} is {b}")
    c2f = m.topology._all[(dim, dim - 1)]
    bt = [[], []]
    for face in range(2 * dim):
        d, s = face // 2, face % 2
        on = [i for i, c in enumerate(cells) if lex[c][d] == s * (n[d] - 1)]
        k = f"{w}:face{face}"
        chk.case("face", k, len(on) > 0)
        ok, fc = chk.guard(k, m.get_face_DOLFINx_cells, face)
        chk.check(not ok or [int(x) for x in fc] == sorted(on), k, f"cells of face {face} are {fc} instead of {on}")
        if ghosts:
            continue
        g = basix.geometry(m.topology.cell_type)
        sub = basix.topology(m.topology.cell_type)[dim - 1]
        lf = next(f for f in range(2 * dim) if np.all(g[sub[f]][:, d] == s))
        want = sorted(int(c2f.links(i)[lf]) for i in on)
        ok, ff = chk.guard(k, m.get_face_facets, face)
        chk.check(not ok or [int(x) for x in ff] == want, k, f"facets of face {face} are {ff} instead of {want}")
        bt[0] += want
        bt[1] += [face] * len(want)
    if not ghosts:
        ok, mt = chk.guard(w + ":tags", m.create_facet_bdry_tags)
        if ok:
            chk.check(mt.dim == dim - 1 and sorted(zip(map(int, mt.indices), map(int, mt.values))) == sorted(zip(*bt)),
                      w + ":tags", f"boundary tags {list(zip(mt.indices, mt.values))}")


def build(comm, br, degree, active, dtype, kind):
    if kind == "cart":
        return TM.CartesianMesh(comm, Grid(br), degree=degree, active_cells=active, dtype=dtype)
    pts = [np.interp(np.arange(degree * (len(b) - 1) + 1) / degree, np.arange(len(b)), b) for b in br]
    nodes = np.array([p[::-1] for p in itertools.product(*pts[::-1])]).astype(dtype)  # first direction fastest
    if comm.rank:
        nodes = nodes[:0]
    return TM.TensorProductMesh(comm, nodes, [len(b) - 1 for b in br], degree, active)


BR = [np.array([0.0, 0.5, 0.75, 2.0]), np.array([-1.0, 1.0, 1.25, 4.0]), np.array([3.0, 3.5, 5.0, 5.25])]
SH = [(1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (1,), (3,)]
SH += [(3, 2), (3, 3), (2, 2, 2), (1, 2, 3)] if vf.THOROUGH else [(3, 2), (2, 1, 2)]
for n in SH:
    dim, N = len(n), int(np.prod(n))
    br = [BR[d][: n[d] + 1] for d in range(dim)]
    subsets = [None] + [np.array(s, dtype=np.int64) for k in range(1, N) for s in itertools.combinations(range(N), k)]
    if N <= 3:
        subsets += [np.array(s[::-1], dtype=np.int64) for s in subsets[1:] if len(s) > 1]
    if len(subsets) > 70 and not vf.THOROUGH:
        subsets = subsets[:24] + subsets[-24:]
    if len(subsets) > 200:
        subsets = subsets[:100] + subsets[-100:]
    for kind, degree, dtype in [("tp", 1, np.float64), ("cart", 1, np.float64), ("cart", 2, np.float64), ("tp", 2, np.float32),
                                ("cart", 3, np.float64), ("cart", 1, np.float32)]:
        if kind == "cart" and dim == 1 or degree == 3 and N > 4:
            continue
        for si, act in enumerate(subsets):
            nc = N if act is None else len(act)
            ws = list(worlds.perm_worlds(("id", "mix"))) if act is None or degree == 1 else \
                [("mix", dict(cell_perm=worlds.mix, node_perm=worlds.mix, facet_perm=worlds.mix))]
            if nc <= 3 and degree == 1 and (act is None or kind == "tp" and dtype == np.float64):
                ws += list(worlds.part_worlds(nc))
            for wn, kw in ws:
                for rank in (0, 1):
                    if rank and (kw.get("owned") is None or kw["owned"] == ()):
                        continue
                    worlds.use(kw)
                    w = f"{n}:{kind}:{degree}:{dtype.__name__}:{None if act is None else act.tolist()}:{wn}:r{rank}"
                    a0 = None if act is None else act.copy()
                    c0 = fakedlf.Comm(0, 2 if rank else 1)
                    ok, m = chk.guard(w, build, c0, br, degree, act, dtype, kind)
                    if ok and rank:
                        ok, m = chk.guard(w, build, fakedlf.Comm(1, 2, c0), br, degree, act, dtype, kind)
                    if not ok:
                        continue
                    chk.check(act is None or np.array_equal(act, a0), w, "the active cells given were changed")
                    chk.check(m.dtype == dtype and m.degree == degree and m.tdim == dim and m.gdim == dim, w,
                              f"type {m.dtype} degree {m.degree} dims {m.tdim} {m.gdim}")
                    chk.check(tuple(m.num_cells_dir) == n and int(m.num_cells_tp) == N
                              and tuple(m.num_pts_dir) == tuple(k * degree + 1 for k in n), w, "sizes")
                    chk.check(m.has_inactive_cells == (act is not None) and not m.has_merged_nodes, w, "flags")
                    if act is not None:
                        chk.check(list(m.original_active_cells) == list(a0), w, "original active cells")
                    lex = list(range(N)) if act is None else list(act)
                    cells = [int(lex[int(i)]) for i in m.topology.original_cell_index]
                    npts = [k * degree + 1 for k in n]
                    xyz1 = [np.interp(np.arange(p) / degree, np.arange(len(b)), b) for p, b in zip(npts, br)]
                    xyz = np.array([[xyz1[d][t[d]] for d in range(dim)] for t in lexcells(npts)])
                    ids_checks(m, w, cells, xyz, list(range(N)))
                    cart_checks(m, w, br, act, bool(kw.get("ghosts")))

# full set of active cells is the same as none
worlds.use(dict(cell_perm=worlds.mix))
m = TM.CartesianMesh(fakedlf.Comm(), Grid([BR[0][:3], BR[1][:3]]), active_cells=np.arange(4))
chk.case("all-active", "2x2")
chk.check(m.degree == 1 and m.dtype == np.float64, "all-active", f"degree {m.degree}, type {m.dtype} by default")
chk.check(not m.has_inactive_cells, "all-active", "all cells active but the mesh reports inactive ones")
try:
    m.original_active_cells
    chk.fail("all-active:raises", "original_active_cells must raise ValueError if all cells are active")
except ValueError:
    pass

# ---- create_Cartesian_mesh: boxes, types, defaults, ghost modes ----------------------------------
worlds.use(dict(cell_perm=worlds.mix, node_perm=worlds.rev))
for n in [(1, 1), (2, 3), (3, 1), (1, 2, 2), (2, 1, 1)]:
    dim = len(n)
    lo, hi = [-1.0, 2.0, 0.5][:dim], [3.0, 2.5, 4.5][:dim]
    for dt, gl, gh, degree, gm, nt, size in itertools.product(
            (np.float64, np.float32), (True, False), (True, False), (1, 2),
            (None, GhostMode.none, GhostMode.shared_facet), (list, np.array), (1, 2)):
        w = f"create:{n}:{dt.__name__}:{gl}:{gh}:{degree}:{gm}:{nt.__name__}:{size}"
        a = np.array(lo, dtype=dt) if gl else None
        b = np.array(hi, dtype=dt) if gh else None
        if gh is False and gl and max(lo) >= 1:
            a = np.array([-1.0, -2.0, 0.5][:dim], dtype=dt)
        if gl is False and gh:
            b = np.abs(b)
        kw = dict(degree=degree)
        if a is not None:
            kw["xmin"] = a
        if b is not None:
            kw["xmax"] = b
        if gm is not None:
            kw["ghost_mode"] = gm
        chk.case("create", w, True)
        fakedlf.calls.clear()
        ok, m = chk.guard(w, lambda: TM.create_Cartesian_mesh(fakedlf.Comm(0, size), nt(n), **kw))
        if not ok:
            continue
        A = np.zeros(dim) if a is None else a.astype(float)
        B = np.ones(dim) if b is None else b.astype(float)
        br = [np.linspace(A[d], B[d], n[d] + 1) for d in range(dim)]
        wdt = dt if (gl or gh) else np.float64
        chk.check(m.dtype == wdt and m.degree == degree and not m.has_inactive_cells and m.num_local_cells == np.prod(n),
                  w, f"type {m.dtype}, degree {m.degree}, {m.num_local_cells} cells")
        chk.check(all(np.allclose(x, y, atol=1e-6) and x.dtype == wdt for x, y in zip(m.cell_breaks, br)), w, "cell breaks")
        pt = fakedlf.calls[-1]["partitioner"]
        want = None if size == 1 else ("partitioner", gm or GhostMode.none)
        chk.check(pt == want, w, f"partitioner {pt} instead of {want}")
        chk.check(m.cart_grid_tp_cpp_object is grids[-1], w, "native grid")
        cart_checks(m, w, br, None, False)

# ---- unfitted Cartesian meshes --------------------------------------------------------------------


class Dom:
    def __init__(self, grid, kinds):
        self.grid, self.kinds, self.num_total_cells = grid, kinds, len(kinds)

    def _g(self, k, sel=None):
        sel = range(len(self.kinds)) if sel is None else sel
        # the native library returns cells sorted
        return np.array(sorted(i for i in sel if self.kinds[i] == k), dtype=np.int64)

    def get_full_cells(self, sel=None):
        return self._g("f", sel)

    def get_cut_cells(self, sel=None):
        return self._g("c", sel)

    def get_empty_cells(self, sel=None):
        return self._g("e", sel)


class Func:
    def __init__(self, dim):
        self.dim, self.cpp_object = dim, object()


doms = []
for n in [(2, 1), (2, 2), (1, 2, 1)] + ([(3, 2), (2, 2, 1)] if vf.THOROUGH else []):
    dim, N = len(n), int(np.prod(n))
    for kinds in itertools.product("fce", repeat=N):
        for excl in (True, False):
            if excl and set(kinds) == {"e"}:
                continue
            for style in ((0, 1, 2, 3) if N <= 2 else (0,)):
                w = f"unf:{n}:{''.join(kinds)}:{excl}:{style}"
                chk.case("unfitted", w, len(set(kinds)) > 1)
                f = Func(dim)
                got = []
                qugar.cpp.create_unfitted_impl_domain = lambda fn, g: got.append((fn, g)) or Dom(g, kinds)
                dt = np.float32 if style in (1, 3) else np.float64
                kw = {} if style == 0 else dict(dtype=dt)
                if style in (1, 2):
                    kw["xmin"] = np.array([-1.0, -2.0, -3.0][:dim], dtype=dt)
                if style in (2, 3):
                    kw["xmax"] = np.array([2.0, 3.0, 5.0][:dim], dtype=dt)
                if style == 3:
                    kw.pop("dtype")
                ok, m = chk.guard(w, lambda: UM.create_unfitted_impl_Cartesian_mesh(
                    fakedlf.Comm(), f, list(n), degree=1 + style % 2, exclude_empty_cells=excl,
                    **({k: v for k, v in kw.items()})))
                if not ok:
                    continue
                A = kw.get("xmin", np.zeros(dim)).astype(float)
                B = kw.get("xmax", np.ones(dim)).astype(float)
                br = [np.linspace(A[d], B[d], n[d] + 1) for d in range(dim)]
                act = [i for i in range(N) if kinds[i] != "e"] if excl else list(range(N))
                chk.check(sorted(int(x) for x in m.get_all_original_cell_ids()) == act, w, "cells of the mesh")
                chk.check(got[0][0] is f.cpp_object and got[0][1] is m.cart_grid_tp_cpp_object, w, "native objects")
                chk.check(m.dtype == dt and m.degree == 1 + style % 2, w, f"type {m.dtype}")
                chk.check(m.mesh is m and m._ufl_domain.unf_domain is m, w, "domain attached to the mesh")
                cart_checks(m, w, br, act if len(act) < N else None, False)
                for k, fn in (("f", m.get_full_cells), ("c", m.get_cut_cells), ("e", m.get_empty_cells)):
                    ok, r = chk.guard(w + k, fn)
                    want = sorted(i for i, o in enumerate(m.get_all_original_cell_ids()) if kinds[int(o)] == k)
                    chk.check(not ok or list(map(int, r)) == want, w + k, f"{k} cells are {r} instead of {want}")
    ok, m = chk.guard(f"unf-int:{n}", lambda: UM.create_unfitted_impl_Cartesian_mesh(fakedlf.Comm(), Func(len(n)), 2))
    bad = dict(xmin=np.zeros(dim, dtype=np.float32), dtype=np.float64), dict(xmax=np.ones(dim, dtype=np.float32), dtype=np.float64)
    for kw in bad:
        chk.case("unfitted-type", f"{n}:{kw}")
        try:
            UM.create_unfitted_impl_Cartesian_mesh(fakedlf.Comm(), Func(dim), list(n), **kw)
            chk.fail(f"unf-type:{n}:{list(kw)}", "a wrong coordinate type must be rejected with ValueError")
        except ValueError:
            pass

# ---- merging of coincident nodes ------------------------------------------------------------------
CORNERS = [(0, 0), (1, 0), (0, 1), (1, 1)]
# quads placed at lattice positions, every quad with its own four nodes
for off in (0.0, 1000.0, -1000.0):
    for k in (1, 2, 3):
        for pos in itertools.combinations([(0, 0), (1, 0), (0, 1), (1, 1), (2, 1)], k):
            for pert in (0.0, 1e-7, 1e-3):
                for tol in (None, 1e-6, 1e-2):
                    w = f"merge:{off}:{pos}:{pert}:{tol}"
                    nodes, conn = [], []
                    for q, (i, j) in enumerate(pos):
                        conn.append([len(nodes) + a for a in range(4)])
                        for a, (x, y) in enumerate(CORNERS):
                            s = pert * (q % 2)
                            nodes.append((off + i + x + s, j + y))
                    nodes, conn = np.array(nodes), np.array(conn, dtype=np.int64)
                    t = tol if tol is not None else 1e-5 * max(np.ptp(nodes[:, 0]), np.ptp(nodes[:, 1]))
                    chk.case("merge", w, k > 1)
                    n0, c0 = nodes.copy(), conn.copy()
                    worlds.use({})
                    ok, m = chk.guard(w, MM.Mesh, fakedlf.Comm(0, 1), nodes, conn, basix.CellType.quadrilateral, merge_nodes=True, merge_tol=tol)
                    if not ok:
                        continue
                    o2n = np.array(m.merged_nodes_map)
                    chk.check(np.array_equal(n0, nodes) and np.array_equal(c0, conn), w, "the arguments were changed")
                    D = np.linalg.norm(nodes[:, None] - nodes[None], axis=2)
                    same = D <= t
                    if o2n.shape != (len(nodes),):
                        chk.fail(w, f"map of merged nodes of shape {o2n.shape}")
                        continue
                    chk.check(np.array_equal(o2n[:, None] == o2n[None], same), w, f"merged {o2n.tolist()}, not exactly the coincident nodes")
                    chk.check(sorted(set(o2n.tolist())) == list(range(len(m.geometry.x))), w, "new ids are not 0..n-1")
                    # with renumbering and on both ranks
                    for wn, kw in [("mix", dict(cell_perm=worlds.mix, node_perm=worlds.mix)), ("id", {}),
                                   ("own0", dict(owned=(0,), node_perm=worlds.rev))]:
                        for rank in (0, 1):
                            worlds.use(kw)
                            c = fakedlf.Comm(0, 2 if rank else 1)
                            w2 = f"{w}:{wn}:{rank}"

                            def mk(cc):
                                return MM.Mesh(cc, n0 if cc.rank == 0 else n0[:0], c0 if cc.rank == 0 else c0[:0],
                                               basix.CellType.quadrilateral, merge_nodes=True, merge_tol=tol)
                            ok, m = chk.guard(w2, mk, c)
                            if ok and rank:
                                ok, m = chk.guard(w2, mk, fakedlf.Comm(1, 2, c))
                            if not ok:
                                continue
                            chk.check(m.has_merged_nodes and list(m.merged_nodes_map) == list(o2n), w2, "map of merged nodes")
                            ids_checks(m, w2, [int(i) for i in m.topology.original_cell_index], n0, list(range(k)), node_rep=2 * t + 1e-15)
chk.finish()
