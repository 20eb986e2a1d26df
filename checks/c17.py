"""C17: the library of implicit functions."""
import cxx
import vf

chk = vf.Check("C17", "exploration", "Every function of the library for a lattice of parameters (radii, centres, axes, reference systems, "
               "transformations, periods, coefficients), and every operation on a family of them to depth 2: value, gradient and Hessian at "
               "a lattice of points against the documented formula differentiated exactly (second-order jets in long double), and interval "
               "evaluations against the values over their box.",
               ["a stand-in plays algoim's intervals", "the scale of planes of non-unit normals and the Hessian of squares, not implemented, are left open"])
cxx.run(chk, "c17")
