"""C05: mapping of facet points to the cell, and orientation of interior facets: every cell type, every
facet, every way two cells can share a facet and every numbering of its vertices, on the real basix
reference cells, judged by the physical positions reached from both sides."""
import itertools
import types

import numpy as np

import autostub
import fakedlf
import fakeufl
import vf

autostub.install()
fakedlf.overlay()
fakeufl.overlay()
import basix  # noqa: E402
from refcells import CELLS, KIND, P1, SYM, QUADS, bx, by_weights, ffcx, orientation, ref_points, subs  # noqa: E402
import qugar.dolfinx.custom_quad_utils as Q  # noqa: E402

chk = vf.Check(
    "C05", "exploration",
    "one case = one cell type with one sequence of facets of the points, or one pair of facets with one way "
    "of gluing and one numbering of the shared vertices; non-trivial: there is at least one point",
    ["facet permutations of a mesh come from a stand-in that numbers orientations as FFCx's permuted tables "
     "do (rotate k // 2 times, then reflect k % 2 times), which the code states it matches", "basix's reference cells are trusted"])


# ---- 1. mapping: every facet, every sequence of facets of the points up to a length ------------------
for name in CELLS:
    vs, geom = subs(name)
    cell = types.SimpleNamespace(name=name)
    nf = len(vs)
    for f in range(nf):
        p = ref_points(name, f)
        for dt in (np.float64,):
            w = f"map:{name}:{f}"
            chk.case("map", w)
            p0 = p.astype(dt)
            p1 = p0.copy()
            ok, r = chk.guard(w, Q.map_facets_points, p1, np.full(len(p), f, np.int32), cell)
            if ok:
                chk.check(r.shape == (len(p), geom.shape[1]) and r.dtype == dt
                          and np.allclose(r, by_weights(name, f, p0), atol=1e-14), w,
                          f"points of facet {f} of {name} are mapped to {r.tolist()}")
                chk.check(np.array_equal(p0, p1), w, "the given points were modified")
    L = 5 if vf.THOROUGH else 4
    while nf ** L > (20000 if vf.THOROUGH else 1300):
        L -= 1
    d = geom.shape[1] - 1
    base = P1[d][[i % len(P1[d]) for i in (3, 1, 4, 2, 0)]] if d else np.zeros((5, 0))
    for k in range(L + 1):
        for seq in itertools.product(range(nf), repeat=k):
            w = f"seq:{name}:{seq}"
            chk.case("sequence", w, k > 0)
            fs = np.array(seq, dtype=np.int32)
            pts, fs0 = base[:k].copy(), fs.copy()
            ok, r = chk.guard(w, Q.map_facets_points, pts, fs, cell)
            if ok:
                want = np.array([by_weights(name, f, base[i:i + 1])[0] for i, f in enumerate(seq)]
                                ).reshape(k, d + 1)
                chk.check(r.shape == want.shape and np.allclose(r, want, atol=1e-14), w,
                          f"got {r.tolist()}, wanted {want.tolist()}")
                chk.check(np.array_equal(pts, base[:k]) and np.array_equal(fs, fs0), w, "arguments modified")


# ---- 2. orientation of shared facets -----------------------------------------------------------------
class Topo:
    def __init__(self, name, perms):
        self.cell_type = bx(name)
        self._p = perms
        self.made = 0

    def create_entity_permutations(self):
        self.made += 1

    def get_facet_permutations(self):
        if not self.made:
            raise RuntimeError("Facet permutations have not been computed.")
        return self._p.reshape(-1).copy()


for name in CELLS[1:5]:
    vs, geom = subs(name)
    nf, tdim = len(vs), geom.shape[1]
    perms, cases = [], []
    centre = geom.mean(0)
    for f, g in itertools.product(range(nf), repeat=2):
        nv = len(vs[f])
        for sym in SYM[nv]:
            for num in itertools.permutations(range(nv)):
                pa, pb = np.zeros(nf, np.uint8), np.zeros(nf, np.uint8)
                pa[f] = orientation([num[i] for i in range(nv)])
                pb[g] = orientation([num[i] for i in sym])
                # decoys: the other facets have other orientations
                for k in range(nf):
                    if k != f:
                        pa[k] = (pa[f] + 1 + k) % max(1, [1, 2, 6, 8][nv - 1])
                    if k != g:
                        pb[k] = (pb[g] + 1 + k) % max(1, [1, 2, 6, 8][nv - 1])
                perms += [pa, pb]
                cases.append((f, g, sym, num))
    topo = Topo(name, np.array(perms, dtype=np.uint8))
    mesh = types.SimpleNamespace(topology=topo)
    cellt = types.SimpleNamespace(name=name)
    for i, (f, g, sym, num) in enumerate(cases):
        w = f"share:{name}:{f}-{g}:{sym}:{num}"
        chk.case("shared facet", w)
        pts = ref_points(name, f)
        if i % 7 == 3:
            topo.made = 0  # nobody else created the permutations
        # the affine map of cell B: vertices of its facet onto the matching vertices of A's facet
        va, vb = geom[list(vs[f])], geom[list(vs[g])]
        src = np.vstack([vb, centre[None]])
        dst = np.vstack([va[list(sym)], (2 * va.mean(0) - centre)[None]])
        A = np.linalg.lstsq(np.c_[src, np.ones(len(src))], dst, rcond=None)[0]
        assert np.allclose(np.c_[src, np.ones(len(src))] @ A, dst)
        n = len(pts)
        cells = np.repeat(np.array([2 * i, 2 * i + 1], np.int32), n)
        facets = np.repeat(np.array([f, g], np.int32), n)
        both = np.vstack([pts, pts])
        b0, c0, f0 = both.copy(), cells.copy(), facets.copy()
        ok, r = chk.guard(w, Q.permute_facet_points, both, mesh, cells, facets)
        if not ok:
            continue
        chk.check(np.array_equal(both, b0) and np.array_equal(cells, c0) and np.array_equal(facets, f0), w,
                  "arguments modified")
        ok, m = chk.guard(w, Q.map_facets_points, r, facets, cellt)
        if not ok:
            continue
        a, b = m[:n], np.c_[m[n:], np.ones(n)] @ A
        chk.check(np.allclose(a, b, atol=1e-12), w,
                  f"the two sides of a shared facet see different points: {a.tolist()} and {b.tolist()}")
        # an unpermuted facet keeps its points; permuting stays inside the facet
        if topo._p[2 * i, f] == 0:
            chk.check(np.allclose(r[:n], pts), w, "points of an unpermuted facet were moved")
        ins = (r >= -1e-12).all() and ((r.sum(1) <= 1 + 1e-12).all() if len(vs[f]) == 3 else (r <= 1 + 1e-12).all())
        chk.check(bool(ins), w, f"permuted points leave the facet: {r.tolist()}")

# ---- 3. sequences of orientations: the points of each entity get their own permutation, numbered as in FFCx
for name in CELLS[1:5]:
    vs, geom = subs(name)
    kind, n = KIND[len(vs[0])]
    src = ref_points(name, 0)
    for seq in itertools.product(range(n), repeat=3 if vf.THOROUGH else 2):
        w = f"perm:{name}:{seq}"
        chk.case("permutation sequence", w)
        f = len(vs) - 1
        table = np.full((len(seq), len(vs)), (seq[0] + 1) % n, np.uint8)
        table[:, f] = seq
        mesh = types.SimpleNamespace(topology=Topo(name, table))
        p = np.tile(src, (len(seq), 1))
        ok, r = chk.guard(w, Q.permute_facet_points, p, mesh, np.arange(len(seq), dtype=np.int32).repeat(len(src)),
                          np.full(len(p), f, np.int32))
        if ok:
            want = np.vstack([ffcx(kind, src, k) for k in seq])
            chk.check(r.shape == want.shape and np.allclose(r, want, atol=1e-14), w,
                      f"permutations {seq} give {r.tolist()}, wanted {want.tolist()}")
            chk.check(np.array_equal(p, np.tile(src, (len(seq), 1))), w, "the given points were modified")
chk.finish()
