"""C12: tensor indices, ranges and Cartesian grids of the native library, against sets of tuples."""
import cxx
import vf

chk = vf.Check(
    "C12", "exploration",
    "all shapes, ranges and orders of indices in one to three directions (8, 5x5 and 3x3x3 entries; two more per direction "
    "in the thorough tier), all pairs of indices under the order, all grids over a family of breaks with 1-7 cells per "
    "direction, all sub-grids and the points at, next to and between all breaks, one grid with more cells than 2^31: "
    "run on the compiled library and compared with sets of tuples",
    ["Tolerances are those of the tests: points outside the grid are not located"])
cxx.run(chk, "c12")
