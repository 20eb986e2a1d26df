#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, pathlib
P=[]
def p(id,title,statement,over,text,why,files,mechanism):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mechanism,where=files[0])])))
PY="python/qugar/"; DX=PY+"dolfinx/"; ME=PY+"mesh/"; CC="cpp/qugar/"; CI="cpp/include/qugar/"
p("C01","Shim library builds are atomic, shared and crash-safe",
  "However many threads and processes ask for the native basis-tabulation library at once, and wherever any of them is killed or its compiler fails, every request that returns hands out a complete library built from the sources, which do not change meanwhile. No request ever returns a partially written or out-of-date library, a failed compilation is reported to the caller, and no crash or failure prevents or corrupts a later request. While the library is up to date nothing is recompiled, and concurrent requests compile at most once.",
  ["schedules","crash_points"],"All interleavings of 2-3 requesting processes/threads at every file-system and compiler step, every kill/compile-failure point, and all cache states (absent, stale, fresh, partial left by a crash).",
  "The tests call it once per process in one cache directory; they never interleave requests with a half-written file nor kill a builder.",
  [DX+"_shim/__init__.py"],"double-checked freshness test + thread lock + advisory file lock around one compiler call")
p("C02","The C tabulation interface reproduces basix for every element",
  "For every element definition that basix accepts, in single and in double precision, registering it and tabulating it through the C interface yields exactly the shape and values that basix gives for the same points and derivative order, independently of which other elements were registered, queried or tabulated before. Registering the same definition again returns the same handle without creating a new element, distinct definitions get distinct handles, and rejected definitions, unknown handles and too small output buffers are reported by negative codes without writing any output. Resetting empties the registries and leaves the interface usable, and a scratch request returns a buffer with at least the requested room that is private to the calling thread.",
  ["histories","inputs"],"All short call sequences (register, shape, tabulate, scratch, reset, with valid and invalid arguments, both precisions) and all element families/cells/degrees/variants up to a degree bound.",
  "The tests register two Lagrange elements and tabulate a few points; other families, variants, handle reuse after failures and interleaved precisions are not reached.",
  [DX+"_shim/qugar_basix_shim.cpp"],"per-precision registry with a parameter-keyed index, extern C wrappers, error codes")
p("C03","Custom kernels integrate over exactly the supplied quadrature data",
  "A transformed integration kernel, called on an entity with run-time quadrature data, adds to the element tensor exactly the sum over that entity's supplied points, weights (and normals) of the original integrand, with basis functions, derivatives and geometry tabulated at those points, for every integral type, element mix and scalar type. For an entity marked as uncut it gives exactly what the original kernel gives, for an empty entity it leaves the tensor unchanged, and it never reads or writes outside the supplied arrays. Quadrature rules that are not custom keep their original points and weights.",
  ["programs","inputs"],"All combinations from a grid of integral types, cells, element sets (scalar, blocked, mixed, derivative), one to three quadrature rules per kernel, scalar types and entity kinds/point counts up to a bound.",
  "No existing test generates, compiles or runs a custom kernel: they exercise only the tabulation library.",
  [DX+"codegeneration.py",DX+"fe_table.py",DX+"_kernel_body.py",DX+"parsing_utils.py",DX+"_shim/qugar_basix_shim.cpp"],"C source rewriting of the FFCx kernel: run-time tables, quadrature loops and per-entity dispatch")
p("C04","Packed coefficients hand every entity its own quadrature data",
  "For every custom integral and every partition of its entities into cut, full and empty ones, the packed coefficients keep the original coefficient values of each entity unchanged and give each entity a marker from which a kernel reads exactly that entity's points, weights and (when needed) facet points and normals for each of its quadrature rules. Full entities are marked for standard integration and empty ones for no contribution, whatever the order or number of entities, rules and coefficients. Re-packing after coefficient values change refreshes the values and leaves the quadrature data intact, for every form of a list with its own coefficients.",
  ["inputs","histories"],"All assignments of {cut, full, empty} with differing point counts to up to 4 entities in every order, 1-2 rules, 0-2 original coefficients, every integral type, and pack/update sequences.",
  "The tests do not touch coefficient packing (it needs DOLFINx); a wrong offset silently reads another entity's points.",
  [DX+"custom_coefficients.py",DX+"integral_data.py",DX+"quadrature_data.py",DX+"petsc.py"],"relative offsets from each entity's coefficient row into one appended value block")
p("C05","Facet and cell quadrature data are mapped to the right local coordinates",
  "Quadrature points given in a facet's own coordinates are mapped to the cell coordinates of precisely that facet for every cell type and facet, and for interior facets the points handed to both sides describe the same physical points for every orientation in which two cells can share the facet. The mapping is affine, keeps point order, stays inside the facet and does not change weights or the given arrays.",
  ["inputs","configurations"],"Every supported cell type, local facet, facet permutation/reflection code and pair of cells sharing a facet, for a set of points that determines the map.",
  "Only run-time assembly on interior facets would exercise permutations; no test does.",
  [DX+"custom_quad_utils.py"],"per-facet reference maps and permutation operators matching FFCx conventions")
p("C06","Form analysis selects and describes every custom integral correctly",
  "Analysing any combination of forms finds exactly the integrals, measures and quadrature rules that ask for run-time quadrature, attributes to each its own domain, subdomain tag, kind and degree (the highest of the integrands of an integral that share a rule), and keeps all other integrals standard. Lists of forms, nested ones included, give one compiled form each in the same order, nothing passed in by the caller is modified, measures compare and hash consistently, and library version requirements follow version order.",
  ["programs","configurations"],"All small combinations of integrals, measures, subdomain tags, degrees, form nestings and version strings from a fixed alphabet.",
  "The tests never build a form; version comparison and nesting are not exercised.",
  [DX+"forms.py",DX+"boundary.py",DX+"quadrature_data.py",DX+"integral_data.py",PY+"utils.py"],"metadata tagging of measures and traversal of the UFL/FFCx intermediate data")
p("C07","Generated kernel source is complete, valid and independently named",
  "For every form, the generated source contains for each custom integral one kernel with the signature and name the rest of the module expects, all other generated code is kept as it was, and the result compiles and links without relying on the order or number of integrals. Compiling the same input twice gives the same source and reuses the compiled module, inputs that differ give modules that cannot be confused with each other, and a compilation that fails at any step changes nothing for the process or for later compilations.",
  ["programs"],"All modules built from one to three integrals of every kind, in every order and split into forms; all short histories of compilations with a failure at any step.",
  "No test compiles a form.",
  [DX+"compiler.py",DX+"codegeneration.py",DX+"jit.py"],"post-processing of FFCx output, module signature and C compilation")
p("C08","Tensor-product index arithmetic and node orderings are exact bijections",
  "For every tensor-product shape up to dimension three, flat and multi-dimensional indices convert into each other exactly, first direction running fastest, and corner, edge, face, internal and boundary queries return exactly the indices their documentation defines. Conversions between lexicographic, DOLFINx and VTK orderings of nodes, vertices, edges and faces are permutations, inverse to each other, and identify entities with the same geometric position.",
  ["inputs"],"All shapes with sizes 1..4 (dimension 1-3), every index, corner, edge and face, all node degrees 1..6.",
  "The tests contain no indexing test that runs here; boundary shapes (size 1 and 2) and 3D edges are not sampled.",
  [ME+"tp_index.py",ME+"utils.py"],"mixed-radix arithmetic and tabulated orderings")
p("C09","Mesh identifiers map one-to-one between original and distributed numbering",
  "For every mesh, whatever subset and order of the original cells and nodes a process owns, looking up the original id of a local cell or node and looking up the local id of an original one are inverse to each other, and ids not present are reported as absent. A Cartesian or tensor-product mesh covers its box with cells of the requested sizes, each original cell id denotes the cell at its tensor index, and boundary-facet queries for a face return exactly the facets lying on that face. Merging coincident nodes preserves geometry and merges exactly the coincident ones.",
  ["inputs","configurations"],"All small grids (1-3 cells per direction, dimension 2 and 3, degree 1-2), all active-cell subsets, several renumberings and partitions.",
  "DOLFINx is absent, so the mesh layer is never executed by the tests.",
  [ME+"mesh.py",ME+"tp_mesh.py",ME+"unfitted_cart_mesh.py",ME+"utils.py"],"index permutations stored at creation, tensor-product connectivity")
p("C10","Facet collections behave as sets of (cell, local facet) pairs",
  "Concatenation, removal of duplicates, intersection, difference, search and conversion to and from arrays and ids of facet collections agree with the same operations on sets of (cell, local facet) pairs, for any operands including empty and repeated ones. Operations leave operands unchanged, and converting to and from facet ids keeps exactly the facets concerned, taking both sides of interior facets where documented.",
  ["histories","inputs"],"All pairs of subsets of a small universe of facets and all operation sequences up to a depth.",
  "No test touches facet collections.",
  [ME+"mesh_facets.py"],"numpy set operations on packed pairs")
p("C11","Unfitted domains classify every cell and facet once and consistently",
  "For every assignment of cells and facets to inside, outside, cut and boundary, the domain's queries return for each category exactly the cells or facets belonging to it, in the mesh's local numbering. The answer of a query does not depend on which other queries were made before, on how often it is asked, or on the order and selection of target entities, and categories that must be disjoint and exhaustive are.",
  ["histories","inputs"],"All orders of category queries up to the full set, over all classifications of small grids.",
  "The tests never build an unfitted domain; caching bugs need particular query orders.",
  [ME+"unfitted_domain.py",ME+"unfitted_domain_abc.py"],"lazy caches of category arrays")
p("C12","Native tensor indices, ranges and Cartesian grids are exact",
  "In the native library flat and tensor indices of cells, points and sub-ranges convert into each other exactly for every shape, iteration visits every index once in order, range splitting and membership agree with sets of indices, and comparison is a strict total order that follows the documentation. A Cartesian grid's cells, boundaries, facets and point location agree with its break points, including at the breaks and at the ends.",
  ["inputs"],"All shapes with sizes 1..4 in dimensions 1-3, all sub-ranges, all cells, facets and location points at, near and between breaks.",
  "The native code is not even linked by the tests that run here.",
  [CC+"tensor_index_tp.cpp",CC+"cart_grid_tp.cpp",CC+"bbox.cpp",CI+"tensor_index_tp.hpp"],"mixed-radix conversion and upper/lower bound searches")
p("C13","Cells and facets are classified by where the domain really is",
  "For an implicitly defined domain on a Cartesian grid, a cell or facet reported full lies inside the domain, one reported empty lies outside and only entities crossed by the boundary are reported cut; each cell belongs to exactly one class. The classification is the same whichever subset of cells is asked for, and selecting facets of one kind never returns facets of another.",
  ["inputs"],"All sign patterns of planar, spherical and polynomial level sets from a parameter lattice, on grids of 1-4 cells per direction in two and three dimensions, for all target subsets.",
  "Only specific shapes are sampled upstream and none in the tests that run here; grazing and grid-aligned boundaries are missed.",
  [CC+"impl_unfitted_domain.cpp",CC+"unfitted_domain.cpp",CC+"unfitted_domain_binary_part.cpp"],"recursive subdivision with sign bounds, per-facet classification")
p("C14","Cut quadratures integrate exactly the domain, its boundary and its facets",
  "Quadrature generated for a cut cell, its immersed boundary or one of its facets has points inside the reference cell and domain, non-negative weights, unit normals orthogonal to the boundary, and the requested entities in the requested order with consistent point counts. Volumes, boundary measures and moments equal the exact ones up to the rule's accuracy, the parts of full and cut cells add up to the whole domain, every piece of the boundary (also one that lies in facets) is counted exactly once, and integrating the divergence of a linear field over the cells equals its flux through the boundary.",
  ["inputs"],"All lattice-parameterised level sets (planes, circles/spheres, ellipsoids, bilinear), grids, numbers of points and request orders up to a bound.",
  "Upstream tests use a few shapes with recorded numbers and none runs here.",
  [CC+"impl_quadrature.cpp",CC+"cut_quadrature.cpp",CC+"quadrature.cpp"],"height-function quadrature rescaled per cell, de-duplicated boundary pieces")
p("C15","Standard quadrature rules have their nominal exactness on any box",
  "Every one-dimensional rule offered integrates polynomials up to its nominal degree exactly over the unit interval, has points inside it in increasing order and positive weights (where the rule has them), and the tensor-product rule over any box in dimensions one to three is the product of the one-dimensional ones, moved to that box, with weights summing to its volume.",
  ["inputs"],"Every rule and number of points supplied (all tables), and tensor products with all point counts up to a bound over boxes of varied origins and sizes.",
  "Ten thousand table entries and shifted boxes are not sampled.",
  [CC+"quadrature.cpp",CC+"quadrature_lib.cpp"],"tabulated abscissae and weights, tensor product construction")
p("C16","Polynomial representations agree in value, derivatives and algebra",
  "Bezier, monomial and Lagrange forms of the same polynomial evaluate to the same values, gradients and Hessians, and conversions between them are inverse. Sum, product, composition, derivative, degree raising, facet restriction, sub-domain rescaling and sign bounds agree with the corresponding operation on the polynomial functions, for every degree combination and dimension.",
  ["inputs"],"All degree tuples up to a bound in dimensions one to three, all unit-coefficient (basis) polynomials and pairs of them, directions, facets and sub-boxes.",
  "Existing native tests sample a few polynomials and do not run here; degree 0 and mixed degrees are missed.",
  [CC+"bezier_tp.cpp",CC+"bezier_tp_utils.cpp",CC+"bezier_tp_utils_composition.cpp",CC+"monomials_tp.cpp",CC+"lagrange_tp_utils.cpp",CC+"polynomial_tp.cpp"],"linear maps on tensor-product coefficients")
p("C17","Every library level set has consistent value, gradient and Hessian",
  "Each function in the implicit function library, primitive, minimal surface, transformed, negated, offset or combined, returns the value its definition states, a gradient and a Hessian that are the derivatives of that value, and interval evaluations that enclose every value taken in the interval. The level set is negative inside the described shape and a Bezier version describes the same set as the analytic one.",
  ["inputs"],"Every function, a lattice of its parameters and evaluation points including axes and symmetry planes, in each dimension it supports.",
  "Derivatives are only used by internal algorithms, whose results tests compare loosely if at all.",
  [CC+"primitive_funcs_lib.cpp",CC+"tpms_lib.cpp",CC+"impl_funcs_lib.cpp",CC+"affine_transf.cpp"],"hand-written derivative formulas")
p("C18","Geometric helpers satisfy their algebraic laws",
  "Affine transformations compose, invert and transform points, vectors, gradients and Hessians consistently; reference systems built from any axis are orthonormal and right handed and keep the given axis; boxes agree with their bounds under enlargement, slicing and mapping to and from the unit box; and tolerance comparisons are symmetric, with unique-value filtering keeping one representative per cluster. None of these change their inputs.",
  ["inputs"],"All products of a small lattice of vectors, axes, boxes, transformations and tolerances in dimensions one to three.",
  "Few specific cases are sampled upstream and none here; degenerate axes take separate branches.",
  [CC+"affine_transf.cpp",CC+"ref_system.cpp",CC+"bbox.cpp",CC+"tolerance.cpp",CC+"point.cpp"],"small dense linear algebra with branch on axis alignment")
p("C19","Reparameterised meshes are valid and reproduce the domain",
  "The reparameterisation of a cut domain consists of valid cells whose points are unique, lie in the domain (or, for level sets, on its boundary) and whose measures add up to the domain's; every cell's connectivity refers to existing points and merging or reordering keeps the geometry. The accompanying wirebasket edges are edges of the mesh, each present once.",
  ["inputs"],"All lattice-parameterised level sets, grids, degrees and mesh sides up to a bound.",
  "Upstream compares recorded counts for a few shapes and none runs here.",
  [CC+"reparam_mesh.cpp",CC+"impl_reparam.cpp",CC+"impl_reparam_mesh.cpp",CC+"impl_reparam_general.cpp",CC+"impl_reparam_bezier.cpp"],"recursive reparameterisation with point merging and wirebasket extraction")
p("C20","Python wrappers and the native module build and report what was asked for",
  "Each Python constructor of an implicit function, unfitted domain, mesh, quadrature or reparameterisation validates its arguments as documented and forwards exactly the given values, in the documented roles, whatever the layout and type of the arrays, and with documented defaults, so that the object built is the one described; its queries give the documented values in arrays that remain valid and independent. Invalid arguments are rejected before anything is created and caller-owned arrays are never modified.",
  ["inputs"],"Every constructor and query of the native module and its wrappers, each optional argument present or absent, by position and keyword, every kind of array (type, stride, order, read-only) and one invalid value per documented restriction.",
  "The native module is not built for the tests, so no wrapper is ever called.",
  [PY+"impl/impl_function.py",PY+"quad/custom_quad.py",PY+"reparam/reparam.py",PY+"mesh/unfitted_cart_mesh.py","python/nanobind_wrappers"],"thin validation and dispatch layer over the native extension; conversions between numpy arrays and native containers")
p("C21","Exports to PyVista put everything where it belongs",
  "Exporting a native unfitted domain, an unfitted mesh, a grid or a reparameterisation to PyVista gives exactly the requested cells, facets and quadrature points (categories as reported by the domain), each once, at the position of the cell or facet whose lexicographical identifiers it carries, with its status, weight and normal, and with the DOLFINx identifiers of that same cell and facet for meshes, whatever the numbering of the mesh and whether or not its empty cells are kept; reparameterisations keep their points and cells, with nodes in VTK's order.",
  ["inputs"],"Every domain, numbering of cells, nodes and facets, and combination of options.",
  "PyVista is not installed for the tests, so the module is never imported.",
  [PY+"plot/pyvista_tools.py",PY+"mesh/utils.py"],"lexicographical, DOLFINx and VTK numberings of cells and facets are mixed in one place")
p("C22","Linear and nonlinear problems solve the system that is posed at each call",
  "Each solve of a LinearProblem gives the solution of the system that its two forms define with the values their coefficients have at that moment, constrained by the values its boundary conditions have at that moment, in the unknown given (or a new one in the space of trial functions), ghosts included; each residual and Jacobian assembled by a NonlinearProblem is that of its form at the present unknown, coefficients and boundary conditions, lifted and constrained as Newton's method needs. Neither what was solved or assembled before, nor other problems, nor what the matrix and vector held before matter. The options of the solver and of the compilation reach the solver, matrix and vector and the two forms of that problem only, and a problem whose construction fails at any step is destroyed without further errors.",
  ["histories","inputs","fault_sequences"],"All words of solves, assemblies, changes of coefficients, boundary values and unknown over two problems up to four or five operations, for all configurations of boundary conditions, ghosts, unknown and options; a failure at every step of a construction.",
  "PETSc and DOLFINx are not available for the tests, so the module is never imported; elsewhere one solve per problem is tried, in which stale coefficients or vectors cannot be seen.",
  [PY+"dolfinx/petsc.py"],"coefficients cached and updated between assemblies; lifting with the coefficients of the Jacobian")
pathlib.Path("/verif/properties.jsonl").write_text("".join(json.dumps(x)+"\n" for x in P))
