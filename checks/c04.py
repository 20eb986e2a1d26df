"""C04: the packed coefficients, read back the way a kernel reads them, for every partition of a few
entities into cut, full and empty ones, every integral kind, rule set, number of coefficients and
scalar type, and for every history of packing and updating."""
import enum
import itertools
import types

import numpy as np

import autostub
import fakedlf
import fakeufl
import vf

autostub.install()
fakedlf.overlay()
fakeufl.overlay()
import dolfinx.cpp.fem as cpp_fem  # noqa: E402


class IT(enum.Enum):
    cell = 0
    exterior_facet = 1
    interior_facet = 2
    vertex = 3
    ridge = 4


cpp_fem._IntegralType = cpp_fem.IntegralType = IT
import dolfinx.fem  # noqa: E402
import dolfinx.fem.forms as dff  # noqa: E402


class BaseForm:
    def __init__(self, form, ufcx_form=None, code=None, module=None):
        self._cpp_object, self._ufcx_form = form, ufcx_form


dff.Form = dolfinx.fem.Form = BaseForm
import qugar.dolfinx.custom_coefficients as CC  # noqa: E402
from packworld import REAL, Domain, Mesh, dom_array, entities, expected, itg_data, old_coeffs, setup  # noqa: E402

chk = vf.Check(
    "C04", "exploration",
    "one case = one integral (kind, entities in one order, partition into cut/full/empty, rules, coefficients, "
    "scalar type) packed and read back, or one history of packing and updating a form; non-trivial: it has at "
    "least one cut entity",
    ["the domain and the DOLFINx form are stand-ins that give recognisable values per entity, rule and degree",
     "coefficients reach kernels as in DOLFINx: one row per cell or exterior facet, two consecutive rows per "
     "interior facet, read by the kernel as one array with both sides of each coefficient together",
     "facet orientations are numbered as in FFCx"])


def read_back(w, kind, mixed, spec, arr, n_ent, old_cs, ents, states, old, mesh, dt):
    """Reads the array as the kernels do. Returns the byte ranges of the quadrature data."""
    real = REAL[dt]
    width = 2 if kind == "interior_facet" else 1
    if not chk.check(arr.flags.c_contiguous and arr.dtype == dt and arr.ndim == 2, w,
                     f"array of type {arr.dtype}, shape {arr.shape}"):
        return
    ncols = arr.shape[1]
    flat, ratio = arr.reshape(-1), np.dtype(dt).itemsize // np.dtype(real).itemsize
    rflat = flat.view(real)
    used = []
    for i in range(n_ent):
        base = width * i * ncols
        if old_cs:
            got = flat[base:base + width * old_cs]
            want = old[width * i:width * (i + 1)].reshape(-1)
            chk.check(np.array_equal(got, want), w, f"entity {i}: coefficients {got} instead of {want}")
        raw = flat[base + width * old_cs:].view(np.uint8)[:8]
        chk.check(base + width * old_cs + -(-8 // np.dtype(dt).itemsize) <= width * (i + 1) * ncols, w,
                  "the marker leaves the entity's own rows")
        off = int(raw.copy().view(np.intp)[0])
        st = states[i]
        if st != "cut":
            chk.check(off < 0 if st == "full" else off == 0, w, f"entity {i} ({ents[i]}) is {st}, marker {off}")
            continue
        if not chk.check(off > 0, w, f"entity {i} ({ents[i]}) is cut, marker {off}"):
            continue
        p0 = p = base * ratio + off
        for k, r in enumerate(expected(kind, mixed, ents[i], spec, mesh, None)):
            n = len(r["weights"])
            if not chk.check(width * n_ent * ncols * ratio <= p < rflat.size, w,
                             f"entity {i}: rule {k} at {p} is outside the data area"):
                break
            chk.check(rflat[p] == n, w, f"entity {i} ({ents[i]}) rule {k}: {rflat[p]} points instead of {n}")
            p += 1
            for what in ("points", "points_s1", "points_facet", "weights", "normals"):
                if what not in r:
                    continue
                v = r[what].reshape(-1)
                g = rflat[p:p + v.size]
                if not chk.check(g.size == v.size and np.allclose(g, v, rtol=1e-6, atol=1e-6), w,
                                 f"entity {i} ({ents[i]}) rule {k} {what}: {g.tolist()} instead of {v.tolist()}"):
                    pass
                p += v.size
        used.append((p0, p))
    used.sort()
    chk.check(all(a[1] <= b[0] for a, b in zip(used, used[1:])), w, "quadrature data of entities overlap")


SPECS = {
    "cell": [((2, False),), ((2, True),), ((2, False), (3, False)), ((4, True), (2, False)),
             ((1, False), (5, True), (0, False)), ((3, True), (4, True))],
    "exterior_facet": [((2, False),), ((2, False), (3, False)), ((1, False), (5, False), (0, False))],
    "interior_facet": [((2, False),), ((2, False), (3, False)), ((1, False), (5, False), (0, False))],
}
DTS = (np.float32, np.float64, np.complex64, np.complex128)
NMAX = 5 if vf.THOROUGH else 4
KINDS = [("cell", False), ("exterior_facet", False), ("exterior_facet", True), ("interior_facet", False)]
NAMES = {"cell": ("quadrilateral", "hexahedron"), "exterior_facet": ("triangle", "hexahedron"),
         "interior_facet": ("quadrilateral", "tetrahedron", "hexahedron")}
ORDERS = ("given", "rev", "sorted")

class Form:
    """itgs: list of (kind, [ids], spec, {id: (ents, states)}) in form order."""

    def __init__(self, name, itgs, cs, dt):
        self.itgs, self.cs, self.dt, self.salt = itgs, cs, dt, 0
        self.mesh = Mesh(name, 40)
        types_ = ("cell", "exterior_facet", "interior_facet", "vertex", "ridge")
        self.order = []  # (kind, position, id, spec)
        ids, offs = [], [0]
        for t in types_:
            mine = sorted((i, k) for k, (kd, lst, _, _) in enumerate(itgs) if kd == t for i in lst)
            for pos, (i, k) in enumerate(mine):
                self.order.append((t, pos, i, k))
                ids.append(i)
            offs.append(len(ids))
        self._ufcx_form = types.SimpleNamespace(form_integral_offsets=offs, form_integral_ids=ids)
        self._cpp_object = self  # as for the mesh

    def domains(self, kind, pos):
        t, _, i, k = next(o for o in self.order if IT[o[0]] == kind and o[1] == pos)
        return dom_array(t, self.itgs[k][3][i][0])

    def old(self, pos_key):
        t, pos, i, k = pos_key
        n = len(self.itgs[k][3][i][0]) * (2 if t == "interior_facet" else 1)
        return old_coeffs(n, self.cs, self.dt, self.salt * 7 + pos + 3 * ("cei".index(t[0])))

    def pack(self):
        return {(IT[o[0]], o[1]): self.old(o) for o in self.order}


cpp_fem.pack_coefficients = lambda cpp: cpp.pack()


count = 0
for kind, mixed in KINDS:
    for n in range(NMAX + 1):
        for states in itertools.product(("cut", "full", "empty"), repeat=n):
            combos = [(o, nm, sp, cs, dt) for o in ORDERS for nm in NAMES[kind] for sp in SPECS[kind]
                      for cs in (0, 1, 2, 3) for dt in DTS]
            # small sets of entities see every combination, larger ones a covering third or ninth
            step = (1 if n <= 2 else 11 if n == 3 else 37) if not vf.THOROUGH else (1 if n <= 3 else 7 if n == 4 else 41)
            for k, (order, name, spec, cs, dt) in enumerate(combos):
                if (k + count) % step:
                    continue
                ents = entities(kind, n, order)
                w = f"{kind}{'/mixed' if mixed else ''}:{name}:{ents}:{','.join(states)}:{spec}:cs{cs}:{dt.__name__}"
                if not chk.want(w):
                    continue
                chk.case(kind + ("/mixed" if mixed else ""), w, "cut" in states)
                mesh, dom = setup(kind, name, ents, states)
                arr = dom_array(kind, ents)
                old = old_coeffs(n * (2 if kind == "interior_facet" else 1), cs, dt)
                arr0, old0 = arr.copy(), old.copy()
                data = itg_data("I0", kind, [3], mesh.tdim, mixed, spec, dt)
                form = types.SimpleNamespace(
                    _ufcx_form=types.SimpleNamespace(
                        form_integral_offsets=[0] * (IT[kind].value + 1) + [1] * (5 - IT[kind].value),
                        form_integral_ids=[3]),
                    _cpp_object=types.SimpleNamespace(domains=lambda t, p: arr, mesh=mesh,
                                                      pack=lambda: {(IT[kind], 0): old}))
                ok, p = chk.guard(w, lambda: CC.CustomCoeffsPacker(form, dom, [data]).pack_coefficients())
                if ok and chk.check(list(p) == [(IT[kind], 0)], w, f"keys {list(p)}"):
                    p = p[IT[kind], 0]
                    read_back(w, kind, mixed, spec, p, n, cs, ents, states, old0, mesh, dt)
                    chk.check(np.array_equal(arr, arr0) and np.array_equal(old, old0), w, "arguments were modified")
            count += 1

# ---- forms with several integrals and histories of packs and updates ----
def domain_of(form):
    cells, fe, fi = {}, {}, {}
    for kd, _, _, sub in form.itgs:
        for ents, states in sub.values():
            for e, s in zip(ents, states):
                if kd == "cell":
                    assert cells.setdefault(e, s) == s
                elif kd == "exterior_facet":
                    fe[e] = s
                else:
                    fi[e[0]] = fi[e[1]] = s
    return Domain(form.mesh.tdim, cells, fe, fi)


ST = [("cut", "full"), ("empty", "cut"), ("cut", "cut"), ("full", "empty")]
CE = {i: e for i, e in zip((-1, 2, 5, 7), ([4, 9], [2, 17], [11, 3], [8, 1]))}
FE = {i: e for i, e in zip((-1, 2, 5, 7), ([(4, 2), (9, 0)], [(4, 0), (2, 1)], [(9, 2), (2, 0)], [(1, 1), (1, 0)]))}
FI = {i: e for i, e in zip((-1, 2, 5, 7), ([((4, 2), (9, 0))] * 1 + [((9, 2), (4, 0))],
                                           [((4, 1), (2, 1)), ((2, 0), (17, 2))],
                                           [((2, 2), (9, 1)), ((3, 0), (1, 2))],
                                           [((7, 2), (8, 0)), ((8, 1), (7, 0))]))}
POOL = {"cell": CE, "exterior_facet": FE, "interior_facet": FI}


def layouts():
    """Sets of integrals: per type, the ids grouped into integrals (one integral may serve several ids)."""
    groupings = [[], [[-1]], [[-1], [2]], [[2, 5]], [[5], [2, 7]], [[2], [5], [7], [-1]]]
    for gc, ge, gi in itertools.product(groupings, repeat=3):
        if gc or ge or gi:
            yield gc, ge, gi


HIST = [h for k in range(1, 4 if vf.THOROUGH else 3) for h in itertools.product("pu", repeat=k)]
for li, (gc, ge, gi) in enumerate(layouts()):
    scal = ((np.float64, 2), (np.float32, 1), (np.complex128, 3), (np.float64, 0))
    for dt, cs in scal if vf.THOROUGH else (scal[li % 4],):
        itgs, datas = [], []
        for kd, g in (("interior_facet", gi), ("cell", gc), ("exterior_facet", ge)):
            for gk, ids in enumerate(g):
                spec = SPECS[kd][(gk + li) % len(SPECS[kd])]
                sub = {i: (POOL[kd][i], ST[(li + gk + i) % 4]) for i in ids}
                itgs.append((kd, ids, spec, sub))
                datas.append(itg_data(f"I{len(itgs)}", kd, ids, 2, False, spec, dt))
        w = f"form:{gc}:{ge}:{gi}:{dt.__name__}:cs{cs}"
        if not chk.want(w):
            continue
        form = Form("quadrilateral", itgs, cs, dt)
        dom = domain_of(form)
        for order in (1, -1):
            packer = CC.CustomCoeffsPacker(form, dom, datas[::order])

            def verify(coeffs, where):
                chk.check(set(coeffs) == set(form.pack()), where, f"keys {sorted(map(str, coeffs))}")
                for o in form.order:
                    t, pos, i, k = o
                    ents, states = itgs[k][3][i]
                    a = coeffs.get((IT[t], pos))
                    if a is not None:
                        read_back(where, t, False, itgs[k][2], a, len(ents), cs, ents, states, form.old(o),
                                  form.mesh, dt)

            for h in HIST:
                wh = f"{w}:{order}:{''.join(h)}"
                chk.case("form history", wh)
                form.salt = 0
                ok, c = chk.guard(wh, packer.pack_coefficients)
                if not ok:
                    break
                verify(c, wh)
                for op in h:
                    form.salt += 1
                    ok, c = chk.guard(wh, packer.pack_coefficients if op == "p" else
                                      lambda: packer.update_coefficients(c))
                    if not ok:
                        break
                    verify(c, wh)
# ---- the assembly of (lists of) forms: LinearProblem and NonlinearProblem ----
import importlib  # noqa: E402

import dolfinx.fem.petsc as dfp  # noqa: E402

log = []


class Any:
    """A PETSc object: accepts every call."""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Any()

    def __call__(self, *a, **k):
        return Any()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


for nm in ("assemble_matrix", "assemble_vector", "apply_lifting"):
    setattr(dfp, nm, lambda *a, _n=nm, **k: log.append((_n, a[1], k)))
dfp.set_bc = lambda *a, **k: None
dfp.create_matrix = dfp.create_vector = lambda *a, **k: Any()
dfp.LinearProblem = type("LinearProblem", (), {"u": property(lambda s: s._u)})
dfp.NewtonSolverNonlinearProblem = type("NewtonSolverNonlinearProblem", (), {})
importlib.import_module("dolfinx.la.petsc").create_vector_wrap = lambda *a, **k: Any()
importlib.import_module("petsc4py").PETSc = Any()
import dolfinx  # noqa: E402
import dolfinx.fem  # noqa: E402

dolfinx.has_petsc4py = True
dolfinx.fem.extract_function_spaces = lambda *a, **k: None
import qugar.dolfinx as QDX  # noqa: E402
import qugar.dolfinx.forms as QF  # noqa: E402

PT = importlib.reload(importlib.import_module("qugar.dolfinx.petsc"))


def custom(k, dt):
    """A form whose coefficients change with time; k tells it from the others."""
    kinds = ["cell", "exterior_facet", "interior_facet"]
    kd = kinds[k % 3]
    spec = SPECS[kd][k % len(SPECS[kd])]
    sub = {i: (POOL[kd][i], ST[(k + i) % 4]) for i in (2, 5)}
    f = Form("quadrilateral", [(kd, [2, 5], spec, sub)], 1 + k % 2, dt)
    f.base = 100 * k
    f.salt = f.base
    cf = QF.CustomForm(f, domain_of(f), [itg_data("I", kd, [2, 5], 2, False, spec, dt)], f._ufcx_form)
    cf.domains, cf.mesh, cf.f = f.domains, f.mesh, f
    return cf


def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


SHAPES = (0, [0], [0, 1], [0, 1, 2], [[0, 1], [2, 3]], [[0], [1, 2]], [0, 3])
VEC = types.SimpleNamespace(localForm=lambda: Any(), ghostUpdate=lambda **k: None, array_w=None)
LEN = 4 if not vf.THOROUGH else 6


def build(shape, off, dt):
    return [build(s, off, dt) for s in shape] if isinstance(shape, list) else custom(shape + off, dt)


def verify_forms(form, coeffs, where):
    if isinstance(form, list):
        if chk.check(isinstance(coeffs, list) and len(coeffs) == len(form), where, "list of coefficients does not match the forms"):
            for f, c in zip(form, coeffs):
                verify_forms(f, c, where)
        return
    f = form.f
    if not chk.check(isinstance(coeffs, dict) and set(coeffs) == set(f.pack()), where, f"coefficients {type(coeffs).__name__}"):
        return
    for o in f.order:
        t, pos, i, k = o
        ents, states = f.itgs[k][3][i]
        read_back(where, t, False, f.itgs[k][2], coeffs[IT[t], pos], len(ents), f.cs, ents, states, f.old(o), f.mesh, f.dt)


made = {}
PT.form_custom = lambda form, **k: made[form]
V = types.SimpleNamespace(mesh=types.SimpleNamespace(comm=None))
ARG = lambda n: types.SimpleNamespace(arguments=lambda: [types.SimpleNamespace(ufl_function_space=lambda: V)])  # noqa: E731
U = types.SimpleNamespace(function_space=V, x=types.SimpleNamespace(scatter_forward=lambda: None))
for shape in SHAPES:
    for lshape in ((0,) if shape == 0 else (0, [0] * len(shape), [0, 1, 2][: len(shape)])):
        for dt in DTS if vf.THOROUGH else (np.float64,):
            ka, kl = ARG(0), ARG(1)
            made = {}
            ta, tl = id(ka), id(kl)
            for h in itertools.product("FJ", repeat=LEN):
                w = f"newton:{shape}:{lshape}:{dt.__name__}:{''.join(h)}"
                if not chk.want(w):
                    continue
                chk.case("Newton history", w)
                A, L = build(shape, 0, dt), build(lshape, 1, dt)
                PT.form_custom = lambda form, **k: A if form is ka else L
                pb = PT.NonlinearProblem(kl, U, J=ka)
                for step, op in enumerate(h):
                    for f in flat(A) + flat(L):
                        f.f.salt = f.f.base + step
                    log.clear()
                    ok, _ = chk.guard(w, (lambda: pb.F(VEC, VEC)) if op == "F" else lambda: pb.J(VEC, Any()))
                    if not ok:
                        break
                    for nm, form, k in log:
                        what = (L if nm == "assemble_vector" else A)
                        if nm == "apply_lifting":
                            chk.check(len(form) == 1 and form[0] is A, w, "lifting of another form")
                            verify_forms(A if isinstance(A, list) else [A], k["coeffs"], w + ":" + nm)
                        else:
                            chk.check(form is what, w, f"{nm} of another form")
                            verify_forms(what, k["coeffs"], w + ":" + nm)
                    chk.check([x[0] for x in log] == (["assemble_vector", "apply_lifting"] if op == "F" else ["assemble_matrix"]),
                              w, f"assembled {[x[0] for x in log]}")
            if isinstance(shape, int):
                for steps in range(1, 4):
                    w = f"linear:{shape}:{lshape}:{dt.__name__}:{steps}"
                    if not chk.want(w):
                        continue
                    chk.case("linear problem", w)
                    A, L = build(shape, 0, dt), build(lshape, 1, dt)
                    PT.form_custom = lambda form, **k: A if form is ka else L
                    ok, pb = chk.guard(w, PT.LinearProblem, ka, kl, u=U)
                    for step in range(steps if ok else 0):
                        for f in flat(A) + flat(L):
                            f.f.salt = f.f.base + 3 * step
                        log.clear()
                        if not chk.guard(w, pb.solve)[0]:
                            break
                        chk.check([x[0] for x in log] == ["assemble_matrix", "assemble_vector", "apply_lifting"], w,
                                  f"assembled {[x[0] for x in log]}")
                        for nm, form, k in log:
                            what = [A] if nm == "apply_lifting" else L if nm == "assemble_vector" else A
                            verify_forms(what, k["coeffs"], w + ":" + nm)
chk.finish()
