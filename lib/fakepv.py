"""Stand-in of the part of PyVista that the exports use: grids with cells, points and data of the cells.

Kept as in VTK: cells of a rectilinear grid are lexicographic pixels/voxels; thresholds and extractions keep the order of the
cells; the edges/faces of disjoint cells come out cell by cell in the order in which VTK's filters extract them."""
import enum
import importlib.machinery
import sys
import types

import numpy as np


class CellType(enum.IntEnum):
    VERTEX = 1
    LINE = 3
    QUAD = 9
    PIXEL = 8
    VOXEL = 11
    HEXAHEDRON = 12
    LAGRANGE_CURVE = 68
    LAGRANGE_QUADRILATERAL = 70
    LAGRANGE_HEXAHEDRON = 72


class Data(dict):
    def __init__(self, ds):
        super().__init__()
        self.ds = ds

    def __setitem__(self, k, v):
        v = np.asarray(v)
        if len(v) != self.ds.n_cells:
            raise ValueError(f"length of array {k} ({len(v)}) must be the number of cells ({self.ds.n_cells})")
        super().__setitem__(k, v.copy())


class DataSet:
    def _set(self, cells, types_, points):
        self.cells_, self.types_, self.points = [np.asarray(c, dtype=np.int64) for c in cells], [int(t) for t in types_], np.asarray(points)
        if self.points.ndim != 2 or self.points.shape[1] != 3:
            raise ValueError("points must have three components")
        if any(c.size and not (0 <= c.min() and c.max() < len(self.points)) for c in self.cells_):
            raise ValueError("a cell refers to a point that does not exist")
        self.cell_data = Data(self)
        return self

    @property
    def n_cells(self):
        return len(self.cells_)

    def corners(self, i):
        return self.points[self.cells_[i]]

    def _sub(self, ids, cls=None):
        out = UnstructuredGrid.__new__(cls or UnstructuredGrid)._set([self.cells_[i] for i in ids], [self.types_[i] for i in ids], self.points)
        for k, v in self.cell_data.items():
            out.cell_data[k] = v[ids]
        return out

    def threshold(self, value=None, scalars=None):
        v = self.cell_data[scalars]
        return self._sub(np.flatnonzero(v.astype(float) >= float(value)))

    def extract_cells(self, ind):
        ind = np.asarray(ind)
        if ind.dtype == bool:
            ind = np.flatnonzero(ind)
        if ind.size and not (0 <= ind.min() and ind.max() < self.n_cells):
            raise ValueError("cells that do not exist")
        return self._sub(np.unique(ind).astype(np.int64))

    def explode(self, factor=0.1):
        assert factor == 0.0
        out = self._sub(np.arange(self.n_cells))
        out.exploded = True
        return out

    def _sides(self, type_, local, new):
        assert getattr(self, "exploded", False), "sides shared by cells come out once"
        cells, own = [], []
        for i, c in enumerate(self.cells_):
            assert self.types_[i] == type_
            for f in local:
                cells.append(c[list(f)])
                own.append(i)
        out = PolyData.__new__(PolyData)._set(cells, [new] * len(cells), self.points)
        for k, v in self.cell_data.items():
            out.cell_data[k] = v[own]
        return out

    def extract_all_edges(self):
        return self._sides(CellType.PIXEL, [(0, 1), (1, 3), (2, 3), (0, 2)], CellType.LINE)

    def extract_surface(self):
        # by their lowest point (-y, -z, -x, +x, +y, +z): the order that the library's tables of VTK's faces state
        return self._sides(CellType.VOXEL, [(0, 1, 4, 5), (1, 0, 3, 2), (2, 0, 6, 4), (1, 3, 5, 7), (3, 2, 7, 6), (4, 5, 6, 7)], CellType.PIXEL)


class PolyData(DataSet):
    pass


class RectilinearGrid(DataSet):
    def __init__(self, *axes):
        axes = [np.asarray(a, dtype=float) for a in axes]
        n = [len(a) - 1 for a in axes]
        d = len(axes)
        full = axes + [np.zeros(1)] * (3 - d)
        pts = np.array([[x, y, z] for z in full[2] for y in full[1] for x in full[0]])
        st = [1, len(full[0]), len(full[0]) * len(full[1])]
        cells = []
        for c in range(int(np.prod(n))):
            i = np.unravel_index(c, n, order="F")
            cells.append([sum((int(i[k]) + (v >> k & 1)) * st[k] for k in range(d)) for v in range(2**d)])
        self._set(cells, [{1: CellType.LINE, 2: CellType.PIXEL, 3: CellType.VOXEL}[d]] * len(cells), pts)


class UnstructuredGrid(DataSet):
    def __init__(self, cells, types_, points):
        flat = np.asarray(cells).reshape(-1)
        if not np.issubdtype(flat.dtype, np.integer):
            raise TypeError("cells are integers")
        out, i = [], 0
        while i < len(flat):
            out.append(flat[i + 1:i + 1 + flat[i]])
            if len(out[-1]) != flat[i]:
                raise ValueError("truncated cells")
            i += 1 + int(flat[i])
        if len(out) != len(types_):
            raise ValueError("the numbers of cells and of types differ")
        self._set(out, types_, points)


class MultiBlock(dict):
    pass


def overlay():
    m = types.ModuleType("pyvista")
    for c in (CellType, DataSet, PolyData, RectilinearGrid, UnstructuredGrid, MultiBlock):
        setattr(m, c.__name__, c)
    m.Grid = DataSet
    m.__spec__ = importlib.machinery.ModuleSpec("pyvista", None)
    sys.modules["pyvista"] = m
