"""C08: tensor-product indices and node orderings are exact bijections (exhaustive small shapes)."""
import itertools

import numpy as np

import autostub
import vf

autostub.install()
import basix  # noqa: E402
import qugar.mesh.utils as U  # noqa: E402
from qugar.mesh.tp_index import TensorProdIndex as T  # noqa: E402

chk = vf.Check(
    "C08", "exploration",
    "one case = one query for one shape (all shapes with sizes 1..N per direction in dimension 1-3, "
    "every index / corner / edge / face, both entity numberings) or one conversion table; "
    "non-trivial: the shape has more than one index, or the table is not the identity",
    ["DOLFINx node order = the point order of basix' equispaced Lagrange elements",
     "VTK node order = the ijk-to-index formula of VTK's Lagrange cells; VTK face order in 3D = the "
     "order in which VTK extracts the faces of a hexahedron, as the plotting module relies on"])

N = {1: 6, 2: 5, 3: 4} if not vf.THOROUGH else {1: 12, 2: 9, 3: 6}


def grid(n):
    """Tensor indices in flat order, direction 0 fastest (written out independently)."""
    return [tuple(reversed(t)) for t in itertools.product(*[range(k) for k in reversed(n)])]


def eq(where, got, want, msg):
    ok, a = chk.guard(where, got)
    if not ok:
        return
    a = np.asarray(a)
    w = np.asarray(want)
    chk.check(a.ndim == w.ndim and a.shape == w.shape and np.array_equal(a, w), where,
              f"{msg}: {a.tolist()} instead of {w.tolist()}"[:400])


# basix numbering of faces and edges: constant coordinates of each sub-entity
CELL = {1: basix.CellType.interval, 2: basix.CellType.quadrilateral, 3: basix.CellType.hexahedron}


def entity_fixed(dim, sub, i):
    """{direction: 0/1} fixed on the i-th basix sub-entity."""
    g = basix.geometry(CELL[dim])
    p = g[basix.topology(CELL[dim])[sub][i]]
    return {d: int(round(p[0, d])) for d in range(dim) if np.ptp(p[:, d]) == 0}


def lex_faces(dim):
    return [{d: s} for d in range(dim) for s in (0, 1)]


def lex_edges(dim):
    """Numbering documented by get_edge: along the last direction first, corners in lexicographic order."""
    if dim < 3:
        return lex_faces(dim)
    out = []
    for along in (2, 1, 0):
        rest = [d for d in range(3) if d != along]
        for hi in (0, 1):
            for lo in (0, 1):
                out.append({rest[0]: lo, rest[1]: hi})
    return out


for dim in (1, 2, 3):
    nums = {"face": (lex_faces(dim), [entity_fixed(dim, dim - 1, i) for i in range(2 * dim)]),
            "edge": (lex_edges(dim), [entity_fixed(dim, 1, i) for i in range(12)] if dim == 3 else
                     [entity_fixed(dim, dim - 1, i) for i in range(2 * dim)])}
    for n in itertools.product(range(1, N[dim] + 1), repeat=dim):
        for dt in (np.int32, np.int64):
            na = np.array(n, dtype=dt)
            na0 = na.copy()
            g = grid(n)
            pos = {t: i for i, t in enumerate(g)}
            nt = len(g) > 1
            w = f"{n}:{dt.__name__}"
            for i, t in enumerate(g):
                chk.case("flat/tensor", f"{w}:{i}", nt)
                eq(f"flat:{w}:{t}", lambda: T.get_flat_index(na, np.array(t, dtype=np.int32)), i, "flat index")
                eq(f"tensor:{w}:{i}", lambda: T.get_tensor_index(na, i), list(t), "tensor index")
                if dt is np.int32:
                    eq(f"tensor:{w}:{i}:np", lambda: T.get_tensor_index(na, np.int32(i)), list(t), "tensor index")
            corners = [pos[tuple((n[d] - 1) * (c >> d & 1) for d in range(dim))] for c in range(2**dim)]
            chk.case("corners", w, nt)
            eq(f"corners:{w}", lambda: T.get_all_corners(na), corners, "corners")
            for c in range(2**dim):
                eq(f"corner:{w}:{c}", lambda: T.get_corner(na, c), corners[c], "corner")
            for kind, get in (("face", T.get_face), ("edge", T.get_edge)):
                for lex, table in ((True, nums[kind][0]), (False, nums[kind][1])):
                    for e, fixed in enumerate(table):
                        want = [i for i, t in enumerate(g) if all(t[d] == s * (n[d] - 1) for d, s in fixed.items())]
                        chk.case(kind, f"{w}:{lex}:{e}", nt)
                        eq(f"{kind}:{w}:{'lex' if lex else 'dolfinx'}:{e}",
                           lambda: get(na, e, lexicg=lex), want, f"{kind} {e} ({'lexicographic' if lex else 'DOLFINx'})")
                        if not lex:
                            eq(f"{kind}:{w}:default:{e}", lambda: get(na, e), want, f"{kind} {e} (DOLFINx, by default)")
            if min(n) >= 2:
                inner = [i for i, t in enumerate(g) if all(0 < t[d] < n[d] - 1 for d in range(dim))]
                chk.case("internal", w, bool(inner))
                eq(f"internal:{w}", lambda: T.get_all_internal(na), inner, "internal indices")
                bnd = [i for i in range(len(g)) if i not in set(inner)]
                chk.case("boundary", w, bool(inner))
                eq(f"boundary:{w}", lambda: T.get_all_faces(na), bnd, "boundary indices")
                if dim < 3:
                    eq(f"edges:{w}", lambda: T.get_all_edges(na), bnd, "edge indices")
            chk.check((na == na0).all(), f"shape-modified:{w}", "the shape array is modified")

# large shapes: flat indices beyond 32 bits
for n in ((2**20, 2**20), (2**16, 2**16, 2**10), (3, 2**30), (2**31 - 1, 5), (70000, 70000, 3)):
    na = np.array(n, dtype=np.int32)
    for t in itertools.product(*[(0, 1, k // 2, k - 1) for k in n]):
        flat = 0
        for d in reversed(range(len(n))):
            flat = flat * n[d] + t[d]
        chk.case("large", f"{n}:{t}")
        eq(f"large-flat:{n}:{t}", lambda: T.get_flat_index(na, np.array(t, dtype=np.int32)), flat, "flat index")
        eq(f"large-tensor:{n}:{t}", lambda: T.get_tensor_index(na, flat), list(t), "tensor index")


def large(n, fixed):
    """Flat indices of the entity in which some tensor indices are fixed."""
    out, stride = np.zeros((1,) * len(n), dtype=np.int64), 1
    for d, m in enumerate(n):
        a = np.arange(m, dtype=np.int64) if fixed[d] is None else np.array([fixed[d]], dtype=np.int64)
        out = out + stride * a.reshape([-1 if k == d else 1 for k in reversed(range(len(n)))])
        stride *= m
    return out.ravel()


for n in itertools.chain(((50000, 50000), (2**31 - 1, 5), (5, 2**31 - 1)),
                         itertools.permutations((200000, 3, 40000)), itertools.permutations((70000, 70001, 2)),
                         itertools.permutations((1300, 1700, 1900))):
    na, d = np.array(n, dtype=np.int32), len(n)
    ends = [(0, m - 1) for m in n]
    corner = [int(large(n, c[::-1])[0]) for c in itertools.product(*ends[::-1])]
    chk.case("large", f"corners:{n}")
    eq(f"large-corners:{n}", lambda: T.get_all_corners(na), corner, "corners")
    for c in range(2**d):
        eq(f"large-corner:{n}:{c}", lambda: [T.get_corner(na, c)], [corner[c]], f"corner {c}")
    sides = [[ends[k][q] if k == f else None for k in range(d)] for f in range(d) for q in range(2)]
    lines = [] if d < 3 else [[None if k == a else ends[k][q[rest.index(k)]] for k in range(d)]
                              for a in (2, 1, 0) for rest in ([k for k in (0, 1, 2) if k != a],)
                              for q in ((i, j) for j in (0, 1) for i in (0, 1))]
    for kind, get, want in (("face", T.get_face, sides), ("edge", T.get_edge, lines or sides)):
        for e, fixed in enumerate(want):
            if float(np.prod([float(m) for m, x in zip(n, fixed) if x is None])) > 8e5:
                continue
            chk.case("large", f"{kind}:{n}:{e}")
            w = large(n, fixed)
            ok, r = chk.guard(f"large-{kind}:{n}:{e}", get, na, e, lexicg=True)
            chk.check(not ok or np.array_equal(r, w), f"large-{kind}:{n}:{e}", f"{kind} {e}: {ok and r[:3]}... instead of {w[:3]}...")

# -- orderings ------------------------------------------------------------------------------------


def vtk_index(dim, p, t):
    if dim == 1:
        return {0: 0, p: 1}.get(t[0], t[0] + 1)
    if dim == 2:
        i, j = t
        ib, jb = i in (0, p), j in (0, p)
        if ib and jb:
            return (2 if j else 1) if i else (3 if j else 0)
        if not ib and jb:
            return 4 + (i - 1) + (2 * (p - 1) if j else 0)
        if ib:
            return 4 + (j - 1) + ((p - 1) if i else 3 * (p - 1))
        return 4 + 4 * (p - 1) + (i - 1) + (p - 1) * (j - 1)
    i, j, k = t
    ib, jb, kb = i in (0, p), j in (0, p), k in (0, p)
    q = p - 1
    nb = ib + jb + kb
    if nb == 3:
        return ((2 if j else 1) if i else (3 if j else 0)) + (4 if k else 0)
    o = 8
    if nb == 2:
        if not ib:
            return (i - 1) + (2 * q if j else 0) + (4 * q if k else 0) + o
        if not jb:
            return (j - 1) + (q if i else 3 * q) + (4 * q if k else 0) + o
        return (k - 1) + q * ((2 if j else 1) if i else (3 if j else 0)) + o + 8 * q
    o += 12 * q
    if nb == 1:
        if ib:
            return (j - 1) + q * (k - 1) + (q * q if i else 0) + o
        o += 2 * q * q
        if jb:
            return (i - 1) + q * (k - 1) + (q * q if j else 0) + o
        o += 2 * q * q
        return (i - 1) + q * (j - 1) + (q * q if k else 0) + o
    return o + 6 * q * q + (i - 1) + q * ((j - 1) + q * (k - 1))


NAMES = {("dlf", "lex"): "DOLFINx_to_lexicg", ("lex", "dlf"): "lexicg_to_DOLFINx", ("vtk", "lex"): "VTK_to_lexicg",
         ("lex", "vtk"): "lexicg_to_VTK", ("dlf", "vtk"): "DOLFINx_to_VTK", ("vtk", "dlf"): "VTK_to_DOLFINx"}
maxdeg = {1: 10, 2: 8, 3: 6} if not vf.THOROUGH else {1: 12, 2: 10, 3: 8}
for dim in (1, 2, 3):
    for p in range(1, maxdeg[dim] + 1):
        g = grid((p + 1,) * dim)
        pts = basix.create_element(basix.ElementFamily.P, CELL[dim], p, basix.LagrangeVariant.equispaced).points
        order = {"lex": g, "dlf": [tuple(int(round(x * p)) for x in q) for q in pts],
                 "vtk": sorted(g, key=lambda t: vtk_index(dim, p, t))}
        assert sorted(order["dlf"]) == sorted(g) and [vtk_index(dim, p, t) for t in order["vtk"]] == list(range(len(g)))
        for (a, b), name in NAMES.items():
            want = [order[b].index(t) for t in order[a]]
            chk.case("node ordering", f"{name}:{dim}:{p}", want != list(range(len(g))))
            eq(f"nodes:{name}:{dim}:{p}", lambda: getattr(U, name + "_nodes")(dim, p), want, name)
    faces = {"lex": lex_faces(dim), "dlf": [entity_fixed(dim, dim - 1, i) for i in range(2 * dim)]}
    # VTK: ends of a line; quad edges 01,12,23,30; hexahedron faces as extracted by VTK
    faces["vtk"] = {1: [{0: 0}, {0: 1}], 2: [{1: 0}, {0: 1}, {1: 1}, {0: 0}],
                    3: [{1: 0}, {2: 0}, {0: 0}, {0: 1}, {1: 1}, {2: 1}]}[dim]
    edges = {"lex": lex_edges(dim), "dlf": [entity_fixed(dim, 1, i) for i in range(12)] if dim == 3 else faces["dlf"]}
    for kind, tab in (("faces", faces), ("edges", edges)):
        for (a, b), name in NAMES.items():
            if a not in tab or b not in tab or {a, b} == {"dlf", "vtk"}:
                continue
            want = [tab[b].index(e) for e in tab[a]]
            chk.case(kind + " ordering", f"{name}:{dim}", want != list(range(len(want))))
            # convention of these tables: entities_b[i] = entities_a[perm[i]]
            inv = [want.index(i) for i in range(len(want))]
            eq(f"{kind}:{name}:{dim}", lambda: getattr(U, f"{name}_{kind}")(dim), inv, f"{name}_{kind}")
chk.finish()
