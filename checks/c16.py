import cxx
import vf

chk = vf.Check("C16", "exploration", "Every vector of the basis of the coefficients (the operations are linear in them) "
               "and one dense vector, for every order in range, dimensions and ranges 1-3; every pair of them for sums, differences "
               "and products; compared as polynomials, on more points per direction than the degree.",
               ["orders up to 7 (1D), 4 (2D), 3 (3D); deeper in the thorough tier", "a stand-in plays algoim's Bernstein kernels, binomials and intervals"])
cxx.run(chk, "c16")
