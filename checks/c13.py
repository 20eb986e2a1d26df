import cxx
import vf

chk = vf.Check("C13", "exploration",
               "Every domain of families of level sets (half-spaces, spheres, ellipsoids, cylinders, tori, annuli, squares, multilinear "
               "functions with corner values of a set, products of lines, their complements, in general and in Bezier form) over a lattice "
               "of parameters that includes boundaries aligned with, tangent to and grazing the breaks of the grid, on grids of 1 to 4 cells "
               "per direction inside and outside of [0,1]^d, in two and three dimensions: the class of every cell and facet against exact "
               "bounds of the level set over it, the lists against the answers cell by cell, and the same for every subset of the cells of "
               "small grids (complements, single cells and pairs for others). Every binary subdivision of small grids with every class in "
               "its leaves: what it says about cells, leaves and selections. What touches the boundary by less than a margin is not judged. "
               "Nontrivial: the cells of the grid are not all of one class.",
               ["algoim, which is not available here, is replaced by a stand-in written from its published algorithms",
                "facets in the boundary of the domain may have any class of boundary facet when their cell is cut"])
cxx.run(chk, "c13")
