"""Reference cells: positions of facet points and orientations of facets, written independently of qugar."""
import itertools

import basix
import numpy as np

CELLS = ["interval", "triangle", "quadrilateral", "tetrahedron", "hexahedron", "prism", "pyramid"]
P1 = {0: np.zeros((2, 0)), 1: np.array([[0.0], [1.0], [0.25], [0.7]]),
      2: np.array([[0.0, 0.0], [1.0, 0.0], [0.0, 1.0], [0.25, 0.125], [0.5, 0.3], [0.1, 0.75]])}
QUADS = np.array([[1.0, 1.0], [0.9, 0.8]])


def bx(name):
    return getattr(basix.CellType, name)


def subs(name):
    t = basix.topology(bx(name))
    return t[-2], basix.geometry(bx(name))


def ref_points(name, f):
    vs, geom = subs(name)
    d = geom.shape[1] - 1
    p = P1[d]
    if len(vs[f]) == 4:
        p = np.vstack([p, QUADS])
    return p


def by_weights(name, f, pts):
    """Position of facet points through the facet's vertices (barycentric / multilinear weights)."""
    vs, geom = subs(name)
    v = geom[list(vs[f])]
    if len(v) == 1:
        return np.repeat(v, len(pts), axis=0)
    if len(v) == 2:
        w = np.c_[1 - pts[:, 0], pts[:, 0]]
    elif len(v) == 3:
        w = np.c_[1 - pts.sum(1), pts]
    else:
        x, y = pts.T
        w = np.c_[(1 - x) * (1 - y), x * (1 - y), (1 - x) * y, x * y]
    return w @ v


SYM = {1: [(0,)], 2: [(0, 1), (1, 0)], 3: list(itertools.permutations(range(3))),
       4: [p for p in itertools.permutations(range(4))  # keep the diagonals of the quadrilateral
           if {p[0], p[3]} in ({0, 3}, {1, 2})]}
assert len(SYM[4]) == 8


def ffcx(kind, p, k):
    """ffcx.ir.elementtables: rotate k // 2 times, then reflect k % 2 times."""
    p = p.copy()
    for _ in range(k // 2):
        p = np.c_[p[:, 1], 1 - p[:, 0] - p[:, 1]] if kind == "triangle" else np.c_[p[:, 1], 1 - p[:, 0]]
    if k % 2:
        p = 1 - p if kind == "interval" else p[:, ::-1].copy()
    return p


CORNERS = {2: [[0.0], [1.0]], 3: [[0.0, 0], [1, 0], [0, 1]], 4: [[0.0, 0], [1, 0], [0, 1], [1, 1]]}
KIND = {2: ("interval", 2), 3: ("triangle", 6), 4: ("quadrilateral", 8)}
_memo = {}


def orientation(v):
    """Number of the orientation of a facet whose vertices have these global numbers: the FFCx
    permutation that takes the corners of the facet seen in its common (low to high) orientation to the
    local corners with the same number."""
    v = tuple(v)
    if v not in _memo:
        n = len(v)
        if n == 1:
            return 0
        c = np.array(CORNERS[n])
        # common orientation: lowest number at the origin, its lower neighbour along the first axis
        best = min((tuple(v[i] for i in s) for s in SYM[n]))
        hits = []
        for k in range(KIND[n][1]):
            to = ffcx(KIND[n][0], c, k)
            if all(np.allclose(to[i], c[v.index(best[i])]) for i in range(n)):
                hits.append(k)
        assert len(hits) == 1
        _memo[v] = hits[0]
    return _memo[v]
