#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, pathlib
V = pathlib.Path("/verif")
T = {
 "C01": ("fault_enumeration", "stateless model checking: all schedules (bounded preemptions) and kill/failure points of the real build function under a cooperative scheduler",
         "Exhaustive within 2-3 requesters, the preemption and fault bounds and the listed cache states; trusts POSIX rename atomicity and the stand-in compiler"),
 "C02": ("exploration", "exhaustive enumeration of inputs of the compiled shim library against the real basix",
         "Every element family/degree/derivative/point-count of the bounded alphabet through the C interface, compared with basix itself"),
 "C03": ("exploration", "exhaustive enumeration of generated kernels compiled and executed", ""),
 "C04": ("exploration", "exhaustive enumeration of packing inputs and pack/update histories on the real code", ""),
 "C05": ("exploration", "exhaustive enumeration of cell types, facets, orientations and facet pairings", ""),
 "C06": ("exploration", "exhaustive enumeration of small forms and nestings on the real analysis code", ""),
 "C07": ("exploration", "exhaustive enumeration of modules through the real source pipeline and the C compiler, and of JIT histories with a fault at every step", ""),
 "C08": ("exploration", "exhaustive enumeration of all small shapes, indices and entities on the real code",
         "All shapes up to the size bound, both numberings, every index; oracle written from the documented definitions and basix geometry"),
 "C09": ("exploration", "exhaustive enumeration of grids, active subsets, numberings, partitions and ranks on the real code",
         "All active subsets, renumberings and partitions of small grids over a stand-in of DOLFINx's mesh layer; coordinate maps evaluated by the real basix"),
 "C10": ("exploration", "explicit-state exploration of facet collections against a set model, plus all mesh-derived collections",
         "All operand pairs over a small universe, all operation histories up to the depth, all numberings/partitions of small meshes (stand-in of DOLFINx's mesh layer)"),
 "C11": ("exploration", "explicit-state exploration of query orders over all class assignments on the real code",
         "All class assignments within the bounds and every order of queries up to depth 3 (4 thorough); native classification and DOLFINx's mesh layer are stand-ins"),
 "C12": ("exploration", "exhaustive enumeration of shapes, ranges and grids on the compiled native code", ""),
 "C13": ("exploration", "exhaustive enumeration of lattice domains, grids and target subsets on the compiled native code", ""),
 "C14": ("exploration", "exhaustive enumeration of lattice domains, grids and requests on the compiled native code", ""),
 "C15": ("exploration", "exhaustive enumeration of every tabulated rule and small tensor products on the compiled native code", ""),
 "C16": ("exploration", "exhaustive enumeration of degrees and basis polynomials on the compiled native code", ""),
 "C17": ("exploration", "exhaustive enumeration of functions, parameter and point lattices on the compiled native code", ""),
 "C18": ("exploration", "exhaustive enumeration of lattices of vectors, boxes and transformations on the compiled native code", ""),
 "C19": ("exploration", "exhaustive enumeration of lattice domains, grids and degrees on the compiled native code", ""),
 "C20": ("exploration", "exhaustive enumeration of calls, argument combinations and kinds of array on the real wrappers and native module (compiled with a stand-in of nanobind)", ""),
 "C21": ("exploration", "exhaustive enumeration of domains, mesh numberings and options on the real export code and native module", ""),
 "C22": ("exploration", "exhaustive enumeration of histories of operations and of failing steps on the real code over an exact stand-in for PETSc", ""),
}
NOTES = json.loads((V / "tools/notes.json").read_text()) if (V / "tools/notes.json").exists() else {}
checks, na = [], []
for pid, (level, tech, note) in T.items():
    note = NOTES.get(pid, note)
    if (V / f"checks/{pid.lower()}.py").exists():
        checks.append(dict(property=pid, quick_cmd=f"./run {pid} quick", thorough_cmd=f"./run {pid} thorough",
                           technique=tech, level=level, level_note=note or "Bounded exhaustive on the real code; see DESIGN.md"))
    else:
        na.append(dict(property=pid, reason=NOTES.get("na:" + pid, "Not covered yet: no check has been built for this property so far.")))
(V / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="./tools/setup.sh", checks=checks, not_applicable=na,
    notes="Every check runs the real code of /repo's working tree, compiled or imported on each run. See DESIGN.md."), indent=1) + "\n")
print([c["property"] for c in checks])
