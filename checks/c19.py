import cxx
import vf

chk = vf.Check("C19", "exploration",
               "Every domain of families of level sets (half-spaces, spheres, ellipsoids, cylinders, tori, annuli, squares, multilinear "
               "functions, their complements, in general and in Bezier form) over a lattice of parameters, on grids of 1 to 4 cells per "
               "direction in two and three dimensions, with cells of 2 to 8 points per direction: the meshes of every cell, volume and level set "
               "(indices, every point used, points in the cell and in the domain or on its boundary, positive orientation, measure, area and flux "
               "against an independent integration along lines), the wirebasket (every edge is an edge of a cell on two faces of the domain, and "
               "every such edge is there once), the mesh of all cells as the union of the meshes of the cells, whatever the order, merging of "
               "coincident points (unique points, geometry kept), the meshes of all facets, meshes with full cells added; every operation on "
               "meshes (scale, merge, permute directions, write VTK files, read back by an independent reader). Nontrivial: some cell is cut.",
               ["algoim, which is not available here, is replaced by a stand-in written from its published algorithms",
                "measures are judged with tolerances that depend on the number of points; cells where the boundary is tangent to a side are not judged"])
cxx.run(chk, "c19")
