"""C10: facet collections against plain sets of pairs: all operands and operation histories up to a
depth, and all mesh-derived collections over small meshes under every numbering and partition."""
import itertools

import numpy as np

import autostub
import fakedlf
import vf
import worlds

autostub.install()
fakedlf.overlay()
import basix  # noqa: E402
import qugar.mesh.mesh_facets as F  # noqa: E402
from mpi4py import MPI  # noqa: E402
from qugar.mesh.tp_mesh import TensorProductMesh, _create_Cartesian_mesh_nodes_from_cells  # noqa: E402

chk = vf.Check(
    "C10", "exploration",
    "one case = one operation (or one history of operations) on facet collections, or one collection "
    "derived from one mesh under one numbering and partition; non-trivial: an operand is not empty",
    ["DOLFINx's mesh layer is a stand-in that builds real connectivities with arbitrary numbering, "
     "ownership and ghosts", "numpy's set functions are trusted"])
MF = F.MeshFacets

# ---- 1. operands: every sequence (order, repetition, emptiness) over a small universe -------------
PAIRS = [(0, 0), (0, 3), (1, 0), (7, 2)] + ([(7, 0)] if vf.THOROUGH else [])
SEQ = [s for k in range(4 if vf.THOROUGH else 3) for s in itertools.product(PAIRS, repeat=k)]
SEQ += [tuple(p) for p in itertools.permutations(PAIRS, 3)] if not vf.THOROUGH else []
SEQ = list(dict.fromkeys(SEQ))


def mk(s, dt):
    return MF(np.array([c for c, _ in s], dtype=dt), np.array([f for _, f in s], dtype=np.int32))


def lst(m):
    return [(int(c), int(f)) for c, f in zip(m.cell_ids, m.local_facet_ids)]


def same_meta(w, m, dt):
    chk.check(m.cells_dtype == dt and m.cell_ids.dtype == dt, w, f"cell ids have type {m.cells_dtype}")
    chk.check(m.local_facet_ids.dtype == np.int32, w, f"local facets have type {m.local_facet_ids.dtype}")
    chk.check(m.size == len(lst(m)) == m.cell_ids.size == m.local_facet_ids.size and m.empty == (m.size == 0),
              w, f"size {m.size} / empty {m.empty} disagree with {lst(m)}")


def uniq(s):
    return len(set(s)) == len(s)


OPS = {
    "concatenate": lambda a, b: a.concatenate(b),
    "intersect": lambda a, b: a.intersect(b),
    "intersect_u": lambda a, b: a.intersect(b, assume_unique=True),
    "difference": lambda a, b: a.difference(b),
    "difference_u": lambda a, b: a.difference(b, assume_unique=True),
}


def model(op, a, b):
    if op == "concatenate":
        return list(a) + list(b), True
    if op.startswith("intersect"):
        return sorted(set(a) & set(b)), False
    return sorted(set(a) - set(b)), False


for dt in (np.int32, np.int64):
    for s in SEQ:
        w = f"{dt.__name__}:{s}"
        chk.case("single", w, len(s) > 0)
        m = mk(s, dt)
        same_meta(w, m, dt)
        ok, arr = chk.guard(w + ":as_array", m.as_array)
        if ok:
            chk.check(np.array_equal(arr, [x for p in s for x in p]) and arr.dtype == dt and arr.ndim == 1,
                      w + ":as_array", f"as_array gives {arr} for {s}")
        for i in range(len(s)):
            ok, g = chk.guard(w + ":getitem", m.__getitem__, i)
            chk.check(not ok or (int(g[0]), int(g[1])) == s[i], w + ":getitem", f"item {i} of {s} is {g}")
        u = mk(s, dt)
        ok, _ = chk.guard(w + ":unique", u.unique)
        if ok:
            chk.check(lst(u) == sorted(set(s)) or (uniq(lst(u)) and set(lst(u)) == set(s)), w + ":unique",
                      f"unique of {s} is {lst(u)}")
            same_meta(w + ":unique", u, dt)
    for a, b in itertools.product(SEQ, repeat=2):
        ma, mb = mk(a, dt), mk(b, dt)
        for op, fn in OPS.items():
            if op.endswith("_u") and not (uniq(a) and uniq(b)):
                continue
            w = f"{dt.__name__}:{op}:{a}:{b}"
            chk.case(op, w, len(a) + len(b) > 0)
            ok, r = chk.guard(w, fn, ma, mb)
            if not ok:
                continue
            want, ordered = model(op, a, b)
            got = lst(r)
            chk.check(got == want if ordered else (set(got) == set(want) and (uniq(got) or op.endswith("_u"))
                                                   and len(got) == len(want)),
                      w, f"{op} of {a} and {b} is {got} instead of {want}")
            same_meta(w, r, dt)
            chk.check(lst(ma) == list(a) and lst(mb) == list(b), w, f"{op} changed an operand")
        w = f"{dt.__name__}:find:{a}:{b}"
        if uniq(a):
            chk.case("find", w, len(a) > 0 and len(b) > 0)
            if set(b) <= set(a):
                ok, r = chk.guard(w, ma.find, mb)
                chk.check(not ok or [int(x) for x in r] == [a.index(p) for p in b], w, f"find gives {r}")
            else:
                try:
                    r = ma.find(mb)
                    chk.fail(w, f"find of absent facets returned {r} instead of raising")
                except ValueError:
                    pass
                except Exception as e:  # noqa: BLE001
                    chk.fail(w, f"find of absent facets raised {type(e).__name__} instead of ValueError")

# ---- 2. histories: two registers, every sequence of operations up to a depth ----------------------
DEPTH = 4 if vf.THOROUGH else 3
STEPS = [(op, d, x, y) for op in ("concatenate", "intersect", "difference") for d in (0, 1)
         for x, y in ((0, 1), (1, 0), (0, 0))] + [("unique", 0, 0, 0), ("unique", 1, 1, 1), ("copy", 0, 1, 1),
                                                  ("copy", 1, 0, 0)]
START = [((), ((0, 0), (7, 2))), (((7, 2), (0, 0), (7, 2)), ((0, 3), (0, 0))), (((1, 0),), ((1, 0), (0, 3)))]
states, frontier = set(), {}
transitions = 0
for s0 in START:
    frontier[tuple(tuple(x) for x in s0)] = ()
for depth in range(DEPTH):
    nxt = {}
    for st, hist in frontier.items():
        for op, d, x, y in STEPS:
            # both registers may alias each other in the code: replay on fresh objects
            reg = [mk(st[0], np.int32), mk(st[1], np.int32)]
            mod = [list(st[0]), list(st[1])]
            w = f"history:{hist + ((op, d, x, y),)}"
            transitions += 1
            if op == "unique":
                ok, _ = chk.guard(w, reg[d].unique)
                mod[d] = sorted(set(mod[d]))
                ok2 = set(lst(reg[d])) == set(mod[d]) and uniq(lst(reg[d]))
            elif op == "copy":
                # results share storage with operands; making one unique must not touch the other
                ok, r = chk.guard(w, reg[x].concatenate, mk((), np.int32))
                reg[d] = r
                before = lst(reg[1 - d])
                r2 = reg[x].intersect(reg[x])
                r2.unique()
                ok2 = lst(reg[1 - d]) == before and lst(reg[d]) == mod[x]
                mod[d] = list(mod[x])
            else:
                ok, r = chk.guard(w, OPS[op], reg[x], reg[y])
                mod[d], o = model(op, mod[x], mod[y])
                if ok:
                    keep = lst(reg[1 - d])
                    reg[d] = r
                    ok2 = (lst(r) == mod[d] if o else sorted(lst(r)) == mod[d]) and lst(reg[1 - d]) == keep
            if not ok:
                continue
            chk.check(ok2, w, f"registers {lst(reg[0])} {lst(reg[1])} instead of {mod}")
            key = (tuple(lst(reg[0])), tuple(lst(reg[1])))
            chk.case("history", f"{st}|{op}{d}{x}{y}", len(st[0]) + len(st[1]) > 0, w)
            if key not in states and len(key[0]) <= 6 and len(key[1]) <= 6:
                states.add(key)
                nxt[key] = hist + ((op, d, x, y),)
    frontier = nxt
chk.extra.update(history_states=len(states), history_transitions=transitions, history_depth=DEPTH)

# ---- 3. collections derived from meshes -----------------------------------------------------------


def tp(n, active=None, gdim=None):
    br = [np.linspace(0.0, 1.0 + d, k + 1) for d, k in enumerate(n)]
    nodes = _create_Cartesian_mesh_nodes_from_cells(br, 1) if len(n) > 1 else br[0].reshape(-1, 1)
    return TensorProductMesh(MPI.Comm(), nodes, list(n), 1, active)


def tri():
    from qugar.mesh.mesh import Mesh
    nodes = np.array([[0, 0], [1, 0], [0, 1], [1, 1], [2, 0.0]])
    return Mesh(MPI.Comm(), nodes, np.array([[0, 1, 2], [3, 1, 2], [1, 4, 3]]), basix.CellType.triangle)


SHAPES = [(1, 1), (2, 1), (2, 2), (1, 1, 1), (2, 1, 1), (3,)] + ([(3, 2), (2, 2, 1), (1, 2, 2)] if vf.THOROUGH else [])
builders = [(str(n), (lambda n=n: tp(n)), int(np.prod(n))) for n in SHAPES]
builders += [("(2, 2)act", lambda: tp((2, 2), np.array([0, 2, 3])), 3), ("tri", tri, 3)]


for name, build, ncells in builders:
    ws = list(worlds.perm_worlds(("id", "mix"))) + (list(worlds.part_worlds(ncells)) if ncells <= 4 else [])
    for wn, kw in ws:
        worlds.use(kw)
        w = f"mesh{name}:{wn}"
        ok, m = chk.guard(w, build)
        if not ok:
            continue
        t = m.topology
        # local facet id of each facet, and the pairs (cell, local facet) on it
        facets = t.facet_keys
        c2f = t._all[(t.dim, t.dim - 1)]
        pairs_of = {i: [(c, f) for c in range(c2f.num_nodes) for f in range(len(c2f.links(c)))
                        if c2f.links(c)[f] == i] for i in range(len(facets))}
        owned = list(range(t.n_facets_owned))
        ext = list(t.ext)
        inter = [i for i in owned if i not in ext]
        nt = len(owned) > 0
        for what, fn, ids in (("all", F.create_all_mesh_facets, owned), ("interior", F.create_interior_mesh_facets, inter)):
            # a new mesh every time: nothing may depend on connectivity made by an earlier query
            for single in (False, True):
                ok, m = chk.guard(w, build)
                k = f"{w}:{what}:{single}"
                chk.case("mesh-" + what, k, len(ids) > 0)
                ok, r = chk.guard(k, fn, m, single)
                ok2, dflt = chk.guard(k, fn, chk.guard(w, build)[1]) if not single else (True, None)
                if not ok:
                    continue
                got = lst(r)
                chk.check(single or not ok2 or lst(dflt) == got, k, "both sides of interior facets are not the default")
                if single:
                    good = len(got) == len(ids) and all(
                        sum(p in pairs_of[i] for p in got) == 1 for i in ids)
                else:
                    good = sorted(got) == sorted(p for i in ids for p in pairs_of[i])
                chk.check(good, k, f"{what} facets are {got}")
        k = f"{w}:exterior"
        chk.case("mesh-exterior", k, len(ext) > 0)
        ok, m = chk.guard(w, build)
        ok, r = chk.guard(k, F.create_exterior_mesh_facets, m)
        if ok:
            chk.check(sorted(lst(r)) == sorted(p for i in ext for p in pairs_of[i][:1]), k, f"exterior facets are {lst(r)}")
        # from ids in any order and back
        allids = list(range(len(facets)))
        sel = [[], allids, allids[::-1]] + [[i] for i in allids] + [list(c) for c in itertools.combinations(allids, 2)][:12]
        for ids in sel:
            for single in (False, True):
                k = f"{w}:ids{ids}:{single}"
                chk.case("from-ids", k, len(ids) > 0)
                if len(ids) <= 1:  # nothing may depend on connectivity made by an earlier query
                    ok, m = chk.guard(k, build)
                arr = np.array(ids, dtype=np.int32)
                # both sides of interior facets unless told otherwise
                args = (m, arr) if len(ids) == 1 and not single else (m, arr, single)
                ok, r = chk.guard(k, F.create_facets_from_ids, *args)
                if not ok:
                    continue
                got = lst(r)
                want = [pairs_of[i] for i in ids]
                if single:
                    good = len(got) == len(ids) and all(g in p for g, p in zip(got, want))
                else:
                    good = sorted(got) == sorted(p for q in want for p in q)
                chk.check(good, k, f"facets of ids {ids} are {got}, expected {want}")
                ok, back = chk.guard(k, r.get_facet_ids, m)
                if ok:
                    chk.check(sorted(set(int(x) for x in back)) == sorted(ids) and len(back) in (len(ids), len(got)),
                              k, f"facet ids of {got} are {back}, expected {ids}")
        # original numbering and back (tensor-product meshes)
        if name != "tri" and "(" in name:
            full = [p for i in allids for p in pairs_of[i]]
            mm = mk(full, np.int32)
            k = f"{w}:orig"
            chk.case("to-original", k, len(full) > 0)
            ok, o = chk.guard(k, mm.to_original, m)
            if ok:
                chk.check(o.cells_dtype == np.int64, k, "original facets must have 64-bit cells")
                tdim = t.dim
                geo = basix.geometry(t.cell_type)
                for (c, f), (oc, of) in zip(full, lst(o)):
                    lex = int(t.original_cell_index[c])
                    if m.has_inactive_cells:
                        lex = [0, 2, 3][lex]
                    pts = geo[basix.topology(t.cell_type)[tdim - 1][f]]
                    d = [d for d in range(tdim) if np.ptp(pts[:, d]) == 0 and (tdim > 1 or True)]
                    good = oc == lex and 0 <= of < 2 * tdim and of // 2 in d and pts[0, of // 2] == of % 2
                    chk.check(good, k, f"({c},{f}) becomes {(oc, of)}")
                ok, b = chk.guard(k, o.to_DOLFINx, m)
                if ok:
                    chk.check(lst(b) == full and b.cells_dtype == np.int32, k, f"to_DOLFINx(to_original) gives {lst(b)}")
                chk.check(lst(mm) == full, k, "the conversion changed its operand")
chk.finish()
