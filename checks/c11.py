"""C11: categories of cells and facets of an unfitted domain: all assignments of classes, all orders
of queries up to a depth, under renumbering and partition."""
import itertools

import numpy as np

import autostub
import fakedlf
import vf
import worlds

autostub.install()
fakedlf.overlay()
import basix  # noqa: E402
import qugar.cpp  # noqa: E402
from qugar.mesh.mesh_facets import MeshFacets  # noqa: E402
from qugar.mesh.tp_mesh import TensorProductMesh, _create_Cartesian_mesh_nodes_from_cells  # noqa: E402
from qugar.mesh.unfitted_domain import UnfittedDomain  # noqa: E402

chk = vf.Check(
    "C11", "exploration",
    "state = (assignment of classes to cells and facet sides, numbering/partition, set of lazy caches "
    "filled); transition = one query; every answer is compared with the sets defined by the documentation. "
    "Every order of the queries is run up to the depth, on the real code",
    ["The native domain is a stand-in that answers from the assignment (its own classification is C13)",
     "DOLFINx's mesh layer is a stand-in with arbitrary numbering, ownership and ghosts"])
DIMS = [(2, 1), (1, 2), (2, 2), (1, 1), (2, 1, 1)] + ([(3, 1), (1, 2, 1), (2, 2, 1)] if vf.THOROUGH else [])

# facet classes: full, cut, empty, cut + part of the unfitted boundary, only part of it, covered by it
FCL = {"F": dict(full=1), "C": dict(cut=1), "E": dict(empty=1), "X": dict(cut=1, unf=1), "P": dict(unf=1), "U": dict(unf=1, ufull=1)}


class Dom:
    """The native unfitted domain: lists sorted by cell, then facet; filters the given targets."""

    def __init__(self, ncell, nfac, cells, facets):
        self.num_total_cells, self.nfac, self.cells, self.facets = ncell, nfac, cells, facets

    def _c(self, k, sel):
        sel = range(self.num_total_cells) if sel is None else [int(i) for i in sel]
        return np.array(sorted(i for i in sel if self.cells[i] == k), dtype=np.int64)

    def _f(self, k, ids, loc):
        if ids is None:
            sel = list(itertools.product(range(self.num_total_cells), range(self.nfac)))
        else:
            assert np.asarray(ids).dtype == np.int64 and np.asarray(loc).dtype == np.int32, "argument types"
            sel = [(int(a), int(b)) for a, b in zip(ids, loc)]
            assert len(ids) == len(loc)
        out = [p for p in sel if k in FCL[self.facets[p]]]
        return np.array([p[0] for p in out], dtype=np.int64), np.array([p[1] for p in out], dtype=np.int32)

    def get_full_cells(self, sel=None):
        return self._c("f", sel)

    def get_cut_cells(self, sel=None):
        return self._c("c", sel)

    def get_empty_cells(self, sel=None):
        return self._c("e", sel)

    def get_full_facets(self, a=None, b=None):
        return self._f("full", a, b)

    def get_cut_facets(self, a=None, b=None):
        return self._f("cut", a, b)

    def get_empty_facets(self, a=None, b=None):
        return self._f("empty", a, b)

    def get_unf_bdry_facets(self, a=None, b=None):
        return self._f("unf", a, b)

    def get_full_unf_bdry_facets(self, a=None, b=None):
        return self._f("ufull", a, b)


class UDMesh(TensorProductMesh, UnfittedDomain):
    def __init__(self, n, dom, active):
        br = [np.linspace(0.0, 1.0 + d, k + 1) for d, k in enumerate(n)]
        from mpi4py import MPI
        TensorProductMesh.__init__(self, MPI.Comm(), _create_Cartesian_mesh_nodes_from_cells(br, 1), list(n), 1, active)
        UnfittedDomain.__init__(self, self, dom)


def pairs(m):
    return [(int(c), int(f)) for c, f in zip(m.cell_ids, m.local_facet_ids)]


def lexface(m, f):
    t = m.topology
    pts = basix.geometry(t.cell_type)[basix.topology(t.cell_type)[t.dim - 1][f]]
    d = [d for d in range(t.dim) if np.ptp(pts[:, d]) == 0][0]
    return 2 * d + int(round(pts[0, d]))


def expect(m, dom, active):
    """Every query's answer, from the documentation (sets)."""
    t = m.topology
    act = list(range(dom.num_total_cells)) if active is None else list(active)
    orig = [int(act[int(i)]) for i in t.original_cell_index]
    n_own = t.n_owned
    E = {}
    for k, nm in (("f", "full"), ("c", "cut"), ("e", "empty")):
        E[nm + "_cells"] = [i for i in range(n_own) if dom.cells[orig[i]] == k]
    c2f = t._all[(t.dim, t.dim - 1)]
    ext, inter = set(), set()
    for c in range(c2f.num_nodes):
        for f, i in enumerate(c2f.links(c)):
            if i < t.n_facets_owned:
                (ext if i in t.ext else inter).add((c, f))
    lf = [lexface(m, f) for f in range(2 * t.dim)]
    cls = {p: FCL[dom.facets[(orig[p[0]], lf[p[1]])]] for p in ext | inter}
    both = ext | inter
    def has(S, k):
        return {p for p in S if k in cls[p]}
    unf, ufull = has(both, "unf"), has(both, "ufull")
    E["cut_ext"] = has(ext, "cut") | (unf - ufull)
    E["full_ext"] = has(ext, "full") | ufull
    E["empty_ext"] = has(ext, "empty")
    E["cut_int"] = has(inter, "cut")
    E["full_int"] = has(inter, "full")
    E["empty_int"] = has(inter, "empty") | (has(inter, "unf") - has(inter, "cut"))
    E["all_ext"] = E["cut_ext"] | E["full_ext"] | E["empty_ext"]
    E["all_int"] = both - E["all_ext"]
    return E, ext, inter


Q = {
    "full_cells": lambda m: m.get_full_cells(), "cut_cells": lambda m: m.get_cut_cells(), "empty_cells": lambda m: m.get_empty_cells(),
    "cut_ext": lambda m: m.get_cut_facets(True), "cut_int": lambda m: m.get_cut_facets(False),
    "full_ext": lambda m: m.get_full_facets(ext_integral=True), "full_int": lambda m: m.get_full_facets(ext_integral=False),
    "empty_ext": lambda m: m.get_empty_facets(), "empty_int": lambda m: m.get_empty_facets(False),
    "all_ext": lambda m: m.get_all_facets(True), "all_int": lambda m: m.get_all_facets(False),
}
QF = [q for q in Q if not q.endswith("cells")]
# without the argument: the facets of exterior integrals
QD = {"cut_ext": lambda m: m.get_cut_facets(), "full_ext": lambda m: m.get_full_facets(), "empty_ext": lambda m: m.get_empty_facets(),
      "all_ext": lambda m: m.get_all_facets()}
transitions, states = 0, set()


def ask(m, q, E, w, default=False):
    global transitions
    transitions += 1
    ok, r = chk.guard(w, (QD if default and q in QD else Q)[q], m)
    if not ok:
        return
    if q.endswith("cells"):
        chk.check(list(map(int, r)) == E[q] and r.dtype == np.int32, w, f"{q} are {r} instead of {E[q]}")
    else:
        g = pairs(r)
        chk.check(len(g) == len(set(g)) and set(g) == E[q] and r.cells_dtype == np.int32 and r.local_facet_ids.dtype == np.int32,
                  w, f"{q} are {sorted(g)} instead of {sorted(E[q])}")


def tags(m, E, w, combos):
    for ct, ft, et in combos:
        k = f"{w}:tags{ct}{ft}{et}"
        ok, mt = chk.guard(k, m.create_cell_meshtags, ct, ft, et)
        want = sorted((i, t) for nm, t in (("cut", ct), ("full", ft), ("empty", et)) if t is not None for i in E[nm + "_cells"])
        if ok:
            chk.check(mt.dim == m.topology.dim and sorted(zip(map(int, mt.indices), map(int, mt.values))) == want, k,
                      f"cell tags {list(zip(mt.indices, mt.values))} instead of {want}")
        for ei in (True, False):
            s = "_ext" if ei else "_int"
            ok, fl = chk.guard(k + s, m.create_facet_tags, ct, ft, et, *(() if ei and (ct, ft) != (1, 1) else (ei,)))
            want = {}
            for nm, t in (("cut", ct), ("full", ft), ("empty", et)):
                if t is not None:
                    want.setdefault(t, set()).update(E[nm + s])
            if ok:
                got = {}
                good = True
                for t, a in fl:
                    p = [(int(a[i]), int(a[i + 1])) for i in range(0, len(a), 2)]
                    good = good and t not in got and len(set(p)) == len(p)
                    got[t] = set(p)
                chk.check(good and got == want, k + s, f"facet tags {got} instead of {want}")


COMBOS = [c for c in itertools.product((None, 1, 2), (None, 1, 3), (None, 1, 5))]


def domain_cases():
    """All cell classes x facet-side classes within the bounds."""
    for n in DIMS:
        N, nf = int(np.prod(n)), 2 * len(n)
        sides = list(itertools.product(range(N), range(nf)))
        # (a) all classes of cells with a rotating assignment of facet classes
        for i, cells in enumerate(itertools.product("fce", repeat=N)):
            fac = {p: "FCEXPU"[(i + 7 * p[0] + 5 * p[1]) % 6] for p in sides}
            yield n, f"cells{''.join(cells)}", dict(enumerate(cells)), fac, (i % 3 == 0)
        # (b) one exterior side and the two sides of an interior facet, all classes; other sides from a base
        if N > 1:
            e, a, b = (0, 0 if n[0] > 1 else 2), (0, 1 if n[0] > 1 else 3), (1, 0 if n[0] > 1 else 2)
            for ce, ca, cb in itertools.product(FCL, repeat=3):
                for base in "FE" if not vf.THOROUGH else FCL:
                    fac = {p: base for p in sides}
                    fac[e], fac[a], fac[b] = ce, ca, cb
                    yield n, f"facets{base}{ce}{ca}{cb}", {i: "fce"[i % 3] for i in range(N)}, fac, False
        else:
            for cl in itertools.product("FCEXPU", repeat=nf) if nf == 4 else [tuple(x) * (nf // 2) for x in itertools.product("FCEXPU", repeat=2)]:
                yield n, f"facets{''.join(cl)}", {0: "c"}, dict(zip(sides, cl)), False


WORLDS = [("id", {}), ("mix", dict(cell_perm=worlds.mix, node_perm=worlds.rot, facet_perm=worlds.mix)),
          ("rev", dict(cell_perm=worlds.rev, facet_perm=worlds.rev))]
for n, nm, cells, fac, deep in domain_cases():
    N = int(np.prod(n))
    dom = Dom(N, 2 * len(n), cells, fac)
    acts = [None]
    live = [i for i in range(N) if cells[i] != "e"]
    if nm.startswith("cells") and 0 < len(live) < N:
        acts.append(np.array(live, dtype=np.int64))
    for act in acts:
        nc = N if act is None else len(act)
        ws = list(WORLDS)
        if nm.startswith("cells") and nc <= 2 or deep and nc <= 4 and len(n) == 2:
            ws += list(worlds.part_worlds(nc))
        elif nm.startswith("facets"):
            ws = ws[1:2] + ([("own1", dict(owned=(1,), offset=1, facet_offset=4)), ("own0g", dict(owned=(0,), ghosts=(1,)))] if nc == 2 else [])
        for wn, kw in ws:
            worlds.use(kw)
            w = f"{n}:{nm}:{'act' if act is not None else 'all'}:{wn}"
            ok, m = chk.guard(w, UDMesh, n, dom, act)
            if not ok:
                continue
            E, ext, inter = expect(m, dom, act)
            # the documented categories partition what they must (checks the oracle itself)
            assert not (E["cut_ext"] & E["full_ext"]) and not (E["cut_int"] & E["full_int"]) and not (E["empty_int"] & (E["cut_int"] | E["full_int"]))
            chk.case("domain", w, N > 1)
            states.add((w, frozenset()))
            order = list(Q)
            for i, q in enumerate(order + order[::-1]):
                ask(m, q, E, f"{w}:{q}{':default' if i >= len(order) else ''}", i >= len(order))
            chk.check(m._ufl_domain.unf_domain is m and m.mesh is m and m.cpp_unf_domain_object is dom, w, "domain not attached")
            if wn == "mix" and nm.startswith("cells") or deep:
                tags(m, E, w, COMBOS[:: 1 if N < 3 else 5])

# ---- orders of the queries: every sequence up to a depth ------------------------------------------
DEPTH = 4 if vf.THOROUGH else 3
for n, clz, fac in [((2, 1), "cf", "FCEXPUCE"), ((2, 1), "ce", "UPXECFEX"), ((2, 2), "cfec", "FCEXPUEPUXFCECPU")]:
    N, nf = int(np.prod(n)), 2 * len(n)
    sides = list(itertools.product(range(N), range(nf)))
    dom = Dom(N, nf, dict(enumerate(clz)), dict(zip(sides, fac)))
    worlds.use(WORLDS[1][1])
    E = expect(UDMesh(n, dom, None), dom, None)[0]
    base = UDMesh(n, dom, None)
    for seq in itertools.product(Q, repeat=DEPTH):
        # only facet queries interact; keep one cell query per sequence at most
        if sum(q.endswith("cells") for q in seq) > 1:
            continue
        w = f"order:{n}:{fac}:{'>'.join(seq)}"
        ok, m = chk.guard(w, UDMesh, n, dom, None)
        if not ok:
            break
        filled = frozenset()
        for q in seq:
            ask(m, q, E, w)
            filled |= {q}
            states.add((f"{n}{fac}", filled))
        # afterwards every category still answers correctly
        for q in ("cut_int", "empty_int", "cut_ext", "full_ext"):
            ask(m, q, E, w)
        chk.case("order", w, True)

# ---- quadratures requested for entities -----------------------------------------------------------
log = []


class Quad:
    def __init__(self, n, d):
        self.n_pts_per_entity = np.arange(n, dtype=np.int32)
        k = int(self.n_pts_per_entity.sum())
        self.points, self.weights, self.normals = np.ones((k, d)), np.ones(k), np.ones((k, d))


SIG = {"create_quadrature": ("unf_domain", "cells", "n_pts_dir", "full_cells"),
       "create_unfitted_bound_quadrature": ("unf_domain", "cells", "n_pts_dir", "include_facet_unf_bdry", "exclude_ext_bdry"),
       "create_facets_quadrature_exterior_integral": ("unf_domain", "facets_cells_ids", "facets_local_facets_ids", "n_pts_dir"),
       "create_facets_quadrature_interior_integral": ("unf_domain", "facets_cells_ids", "facets_local_facets_ids", "n_pts_dir")}


def mkq(name):
    def fn(*a, **k):
        d = dict(zip(SIG[name], a))
        assert not set(d) & set(k) and set(k) <= set(SIG[name]), f"arguments of {name}: {k}"
        d.update(k)
        ids = d.get("cells", d.get("facets_cells_ids"))
        q = Quad(len(ids), 2)
        log.append((name, d, q))
        return q
    return fn


for _n in SIG:
    setattr(qugar.cpp, _n, mkq(_n))
for deg in range(0, 40):
    chk.case("degree", deg, deg > 1)
    k = UnfittedDomain.get_num_Gauss_points(deg)
    chk.check(isinstance(k, int) and 2 * k - 1 >= deg and (k == 1 or 2 * (k - 1) - 1 < deg), f"degree{deg}",
              f"{k} Gauss points for degree {deg}")
for n in [(2, 1), (2, 2), (2, 1, 1)]:
    N, nf = int(np.prod(n)), 2 * len(n)
    sides = list(itertools.product(range(N), range(nf)))
    for act in [None] + [np.array(s, dtype=np.int64) for k in range(1, N) for s in itertools.combinations(range(N), k)]:
        dom = Dom(N, nf, {i: "c" for i in range(N)}, {p: "C" for p in sides})
        worlds.use(WORLDS[1][1])
        m = UDMesh(n, dom, act)
        a = list(range(N)) if act is None else list(act)
        orig = [int(a[int(i)]) for i in m.topology.original_cell_index]
        nc = len(orig)
        for k in range(0, min(nc, 3) + 1):
            for sel in itertools.permutations(range(nc), k):
                for deg in (0, 1, 4):
                    cells = np.array(sel, dtype=np.int32)
                    for fn, name, extra in ((m.create_quad_custom_cells, "create_quadrature", {}),
                                            (m.create_quad_unf_boundaries, "create_unfitted_bound_quadrature",
                                             dict(include_facet_unf_bdry=False, exclude_ext_bdry=False))):
                        w = f"quad:{n}:{a}:{name}:{sel}:{deg}"
                        chk.case("quad", w, k > 0)
                        log.clear()
                        ok, q = chk.guard(w, fn, deg, cells)
                        if not ok:
                            continue
                        nm, d, r = log[-1]
                        chk.check(len(log) == 1 and nm == name and d["unf_domain"] is dom and [int(x) for x in d["cells"]] == [orig[i] for i in sel]
                                  and d["n_pts_dir"] == max(-(-(deg + 1) // 2), 1)
                                  and all(d.get(x) is v for x, v in extra.items()) and not d.get("full_cells"),
                                  w, f"native call {nm} {d}")
                        chk.check(list(q.cells) == list(sel) and q.points is r.points and q.weights is r.weights
                                  and np.array_equal(q.n_pts_per_entity, r.n_pts_per_entity)
                                  and (name == "create_quadrature" or q.normals is r.normals), w, "returned quadrature")
                    fl = [(c, (c + i) % nf) for i, c in enumerate(sel)]
                    mf = MeshFacets(np.array([x for x, _ in fl], dtype=np.int32), np.array([x for _, x in fl], dtype=np.int32))
                    for ei in (True, False):
                        w = f"quadf:{n}:{a}:{fl}:{deg}:{ei}"
                        chk.case("quad-facets", w, k > 0)
                        log.clear()
                        ok, q = chk.guard(w, m.create_quad_custom_facets, deg, mf, ei)
                        if not ok:
                            continue
                        nm, d, r = log[-1]
                        chk.check(nm == "create_facets_quadrature_" + ("exterior" if ei else "interior") + "_integral" and d["unf_domain"] is dom
                                  and list(zip(map(int, d["facets_cells_ids"]), map(int, d["facets_local_facets_ids"]))) == [(orig[c], lexface(m, f)) for c, f in fl]
                                  and d["n_pts_dir"] == max(-(-(deg + 1) // 2), 1), w, f"native call {nm} {d}")
                        chk.check(pairs(q.facets) == fl and q.points is r.points and q.weights is r.weights
                                  and np.array_equal(q.n_pts_per_entity, r.n_pts_per_entity), w, "returned quadrature")
chk.extra.update(states=len(states), transitions=transitions, queries_depth=DEPTH)
chk.finish()
