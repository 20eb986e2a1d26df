"""C18: geometric helpers of the native library, on lattices of inputs."""
import cxx
import vf

chk = vf.Check(
    "C18", "exploration",
    "all axes (pairs of axes) of a lattice and next to the coordinate axes, all matrices of a family of entries and their "
    "products two by two, all boxes of a family of intervals, all pairs of values under all tolerances, all sequences of up "
    "to 4 (5) members of well separated clusters of values and points: run on the compiled library and compared with "
    "the definitions",
    ["Clusters are well separated: what happens to chains of nearly coincident points is not judged",
     "is_negative is not judged at exactly minus the tolerance, where its documentation and its twin is_positive disagree"])
cxx.run(chk, "c18")
