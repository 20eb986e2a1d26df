import cxx
import vf

chk = vf.Check("C14", "exploration",
               "Every domain of families of level sets (half-spaces, spheres, ellipsoids, cylinders, tori, annuli, squares, multilinear "
               "functions with corner values of a set, their complements, in general and in Bezier form) over a lattice of parameters, on "
               "grids of 1 to 4 cells per direction inside and outside of [0,1]^d in two and three dimensions, with 1 to 5 points per "
               "direction, all cells and all facets, every combination of options: structure of the rules (points in cell, facet, boundary and "
               "domain, weights, normals, exact moments in full cells, nothing in empty ones), measures, first moments, areas and flux of the "
               "normal against an independent integration along lines, the divergence theorem of orders 0 to 2 in every cell (boundary, "
               "interior and exterior facets together), independence of the order, repetition and history of the requests. Slabs whose planes lie on "
               "facets: every piece of the boundary counted exactly once, for every combination of options. Nontrivial: some cell is cut.",
               ["algoim, which is not available here, is replaced by a stand-in written from its published algorithms",
                "what is not integrated exactly is judged with tolerances that depend on the number of points; areas of domains with kinks are not judged"])
cxx.run(chk, "c14")
