"""C15: the tabulated quadrature rules and their tensor products."""
import cxx
import vf

chk = vf.Check(
    "C15", "exploration",
    "all 200 tabulated rules, every point and weight, against the rules computed from their definitions in extended "
    "precision and, for Gauss, all the orthogonal polynomials of the nominal degree; all tensor products of up to 4 points "
    "(6 in one and two directions; more in depth) over all boxes of a family of intervals, with all the monomials of the "
    "nominal degree: run on the compiled library",
    ["Extended precision is that of the machine's long double"])
cxx.run(chk, "c15")
