"""C03: custom kernels, end to end: the code qugar makes out of FFCx' kernels, compiled, fed with the
coefficients qugar packs, and compared with the integral computed with basix at the given points - for every
element, derivative, side, rule set, coefficient and scalar type of a catalogue."""
import ctypes as C
import itertools
import sys
import types

import numpy as np

import kernworld as K  # installs the stand-ins
import vf
from ffcxgen import FACET, Fun, Itg, TQ, Term, Unsupported, evaluate, generate

chk = vf.Check(
    "C03", "exploration",
    "one case = one integral (kind, cell, spaces, terms, rules, coefficients, constants, scalar type) on one entity "
    "(cut, full or empty): code generated, compiled, run and compared; non-trivial: the entity is cut and has points",
    ["FFCx is replaced by a generator that writes kernels in the form of FFCx 0.10 (tables, piecewise code, loops)",
     "the quadrature of every entity comes from a stand-in domain and reaches the kernel through qugar's packer",
     "the C tabulation interface is the real one; its scratch memory is bounded by a guard page and spoiled when "
     "another request may move it"])
import basix  # noqa: E402
import basix.ufl  # noqa: E402

import qugar.dolfinx.compiler as QC  # noqa: E402
import qugar.dolfinx.custom_coefficients as CC  # noqa: E402
from packworld import dom_array, entities, expected, old_coeffs, setup  # noqa: E402

el = basix.ufl.element


def spaces(cell):
    t = len(basix.topology(getattr(basix.CellType, cell))) - 1
    s = {"P1": el("P", cell, 1), "P2": el("P", cell, 2), "P3": el("P", cell, 3), "DG0": el("DG", cell, 0),
         "DG1": el("DG", cell, 1), "vP1": el("P", cell, 1, shape=(t,)), "vP2": el("P", cell, 2, shape=(t,)),
         "vDG0": el("DG", cell, 0, shape=(t,)), "tP1": el("P", cell, 1, shape=(t, t)), "bP1": el("P", cell, 1, shape=(1,))}
    if t > 1:
        s["sP1"] = el("P", cell, 1, shape=(t, t), symmetry=True)
        s["N1"] = el("N1curl", cell, 1)
        s["N2"] = el("N1curl", cell, 2)
        s["RT1"] = el("RT", cell, 1)
        s["RT2"] = el("RT", cell, 2)
        s["TH"] = basix.ufl.mixed_element([s["vP2"], s["P1"]])
        s["HT"] = basix.ufl.mixed_element([s["P1"], s["vP2"]])
        s["RD"] = basix.ufl.mixed_element([s["RT1"], s["DG0"]])
        s["XX"] = basix.ufl.mixed_element([s["RD"], s["N1"], s["P2"]])
    if t == 1:
        pass
    elif cell in ("triangle", "tetrahedron"):
        s["B1"] = el("BDM", cell, 1)
        s["E1"] = basix.ufl.enriched_element([s["P1"], el("bubble", cell, t + 1)])
        s["Bu"] = el("bubble", cell, t + 1)
    else:
        s["S2"] = el("S", cell, 2)
        s["Bu"] = el("bubble", cell, 2)
        s["DPC1"] = el("DPC", cell, 1)
    s["W3"] = el("P", cell, 3, lagrange_variant=basix.LagrangeVariant.gll_isaac)
    s["L2"] = el("P", cell, 2, lagrange_variant=basix.LagrangeVariant.legendre, discontinuous=True)
    return s


_sp = {}


def sp(cell, name):
    if cell not in _sp:
        _sp[cell] = spaces(cell)
    return _sp[cell][name]


# elements qugar may refuse, but not get wrong
MAY_RAISE = ("E1",)


def degree_of(e):
    return e.embedded_superdegree


def variants(cell, name, full=False):
    """(component, derivatives) of a space worth a table."""
    e = sp(cell, name)
    t = len(basix.topology(getattr(basix.CellType, cell))) - 1
    n = e.reference_value_size if name != "sP1" else e.block_size
    comps = range(n) if full or n <= 3 else sorted({0, 1, n // 2, n - 1})
    ders = [(0,) * t] + [tuple(int(i == k) for i in range(t)) for k in range(t)]
    if full or name in ("P2", "P3", "W3", "S2"):
        ders += [tuple(int(i == k) + int(i == m) for i in range(t)) for k in range(t) for m in range(k, t)]
    return [(c, d) for c in comps for d in ders]


MK = {"c": "cell", "e": "exterior_facet", "i": "interior_facet"}
TD = {"triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}
serial = itertools.count()
catalogue = []


def add(fam, key, kind, cell, quads, args=(), coeffs=(), nconst=0, normal_at=None, gdeg=1, dtype="float64", order=1,
        facet_spaces=False):
    catalogue.append(dict(key=f"{fam}:{MK[kind]}:{cell}:{key}:g{gdeg}:{dtype}:o{order}", kind=MK[kind], cell=cell,
                          quads=quads, args=args, coeffs=coeffs, nconst=nconst, normal_at=normal_at, gdeg=gdeg,
                          dtype=dtype, order=order, serial=next(serial), fam=fam))


def resolve(cell, n):
    if n == "F:P2" and cell == "hexahedron":
        n = "F:P1"
    return sp(FACET[cell], n[2:]) if n.startswith("F:") else sp(cell, n)


def A(num, cd=(0, ()), side=0):
    return Fun("arg", num, cd[0], cd[1], side)


def W(num, cd=(0, ()), side=0):
    return Fun("coeff", num, cd[0], cd[1], side)


def scale(kind, t):
    """Scale factors of the measure, as FFCx writes them: Jacobian entries and, on facets, the reference facet
    Jacobian."""
    f = [("J", 0, 0, 0), ("J", t - 1, t - 1, 0)]
    if kind != "c":
        f.append(("ref", 0))
    return tuple(f)


# a rule set is a tuple of (degree, unfitted)
RULES = {"c": [((2, 0),), ((1, 0),), ((4, 0),), ((2, 0), (4, 0)), ((4, 0), (1, 0)), ((3, 1),), ((2, 0), (3, 1)),
               ((3, 1), (2, 0)), ((1, 0), (4, 0), (3, 1)), ((2, 0), (4, 0), (6, 0)), ((3, 1), (1, 0)), ((0, 1),)],
         "f": [((2, 0),), ((1, 0),), ((4, 0),), ((2, 0), (4, 0)), ((4, 0), (1, 0)), ((2, 0), (4, 0), (6, 0))]}


def rset(kind):
    return RULES["c" if kind == "c" else "f"]


def rkey(r):
    return "+".join(f"{d}{'u' if u else ''}" for d, u in r)


CELLS = ("triangle", "quadrilateral", "tetrahedron", "hexahedron")
DTS = K.DT
TH = vf.THOROUGH

# 1. rules: several loops, in both orders, with and without shared terms, every rank and scalar type
for kind in "cei":
    for cell in CELLS:
        t = TD[cell]
        for r, rank, gdeg, order, dt in itertools.product(rset(kind), (0, 1, 2), (1, 2), (1, -1), DTS):
            if not TH and ((t == 3 and (gdeg == 2 or DTS.index(dt) != (rank + len(r)) % 4)) or (len(r) == 1 and order < 0)):
                continue
            for mix in (0, 1):  # the same terms in every loop, or different ones
                quads = []
                sd = 1 if kind == "i" else 0
                for k, (d, u) in enumerate(r):
                    z = (0,) * t
                    x = (1,) + (0,) * (t - 1)
                    y = (0,) * (t - 1) + (1,)
                    terms = []
                    for v in ((z, x, y) if not mix else ((z, x, y)[k],)):
                        fac = scale(kind, t) + (W(0, (0, v), sd),) + ((("n", t - 1),) if u else ()) + (("c", t),)
                        terms.append(Term([A(0, (0, v), sd), A(1, (0, z))][:rank], fac))
                        terms.append(Term([A(0, (0, z)), A(1, (0, v), sd)][:rank], scale(kind, t)))
                    quads.append(TQ(d, terms, bool(u)))
                add("rules", f"{rkey(r)}:r{rank}:m{mix}", kind, cell, quads, ["P2", "P1"][:rank], ["P1"], t + 1, 0,
                    gdeg, dt, order)

# 2. one table at a time: every space, component and derivative, as argument and as coefficient
n = 0
for kind in "cei":
    for cell in CELLS:
        t = TD[cell]
        for name in spaces(cell):
            for cd in variants(cell, name, TH):
                for side in ((0, 1) if kind == "i" else (0,)):
                    for r in (((2, 0),), ((1, 0),), ((4, 0), (1, 0))) + ((((3, 1),),) if kind == "c" else ()):
                        n += 1
                        if not TH and n % (2 if t == 2 else 5):
                            continue
                        dt = DTS[n % 4]
                        base = [TQ(d, [Term([A(0, cd, side)], scale(kind, t))], bool(u)) for d, u in r]
                        add("test", f"{name}:{cd}:s{side}:{rkey(r)}", kind, cell, base, [name], [], 0, None, 1, dt)
                        base = [TQ(d, [Term([A(0)], scale(kind, t) + (W(0, cd, side),))], bool(u)) for d, u in r]
                        add("coeff", f"{name}:{cd}:s{side}:{rkey(r)}", kind, cell, base, ["DG0"], [name], 0, None, 1, dt)

# 3. pairs of spaces, with all the tables of both
PAIRS = ["P1", "P2", "DG0", "vP1", "N1", "RT2", "TH", "XX"]
n = 0
for kind in "cei":
    for cell in CELLS:
        t = TD[cell]
        for a, b in itertools.product(PAIRS, repeat=2):
            for r in rset(kind):
                for sides in itertools.product((0, 1), repeat=2) if kind == "i" else ((0, 0),):
                    n += 1
                    if not TH and n % (3 if t == 2 else 29):
                        continue
                    va, vb = variants(cell, a), variants(cell, b)
                    m = max(len(va), len(vb))
                    prs = [(va[i % len(va)], vb[(3 * i) % len(vb)]) for i in range(min(m, 6))]
                    quads = [TQ(d, [Term([A(0, x, sides[0]), A(1, y, sides[1])], scale(kind, t)) for x, y in prs], bool(u))
                             for d, u in r]
                    add("pair", f"{a}*{b}:{sides}:{rkey(r)}", kind, cell, quads, [a, b], [], 0, None, 1 + n % 2,
                        DTS[n % 4])

# 4. coefficients and constants: number, order and positions; a normal among the constants
COE = ["P1", "DG0", "TH", "RT1"]
n = 0
for kind in "cei":
    for cell in CELLS:
        t = TD[cell]
        for nc in range(4):
            for cs in itertools.product(COE, repeat=nc):
                for nk, at in ((0, None), (2, None), (t, 0), (t + 1, 0), (t + 1, 1), (t + 3, 2)):
                    if at is not None and kind != "c":
                        continue
                    for r in (((2, 0), (3, 1)), ((3, 1),), ((4, 0),)) if kind == "c" else (((2, 0),), ((2, 0), (4, 0))):
                        n += 1
                        if not TH and n % (9 if t == 2 else 61):
                            continue
                        quads = []
                        for d, u in r:
                            if not u and at is not None and d == 4:
                                continue
                            fac = [W(k, variants(cell, c)[k], int(kind == "i" and k % 2)) for k, c in enumerate(cs)]
                            free = [k for k in range(nk) if at is None or not at <= k < at + t]
                            fac += [("c", k) for k in free]
                            terms = [Term([A(0)], scale(kind, t) + tuple(fac))]
                            if u and at is not None:
                                terms += [Term([A(0)], (("n", i),) + scale(kind, t) + tuple(fac[:1])) for i in range(t)]
                            quads.append(TQ(d, terms, bool(u)))
                        if quads:
                            add("data", f"{cs}:k{nk}@{at}:{rkey(r)}", kind, cell, quads, ["P1"], cs, nk, at, 1, DTS[n % 4])

# 5. spaces on facets (mixed dimensions)
n = 0
for cell in CELLS:
    t = TD[cell]
    for a, b in itertools.product(("P1", "vP1", "F:P1", "F:DG0", "F:P2"), repeat=2):
        for c in (None, "P2", "F:P1"):
            if not any(x and x.startswith("F:") for x in (a, b, c)):
                continue
            for r in RULES["f"]:
                n += 1
                if not TH and n % (2 if t == 2 else 7):
                    continue
                x = (1,) + (0,) * (t - 1)
                fac = scale("e", t) + ((W(0),) if c else ())
                quads = [TQ(d, [Term([A(0), A(1)], fac)] +
                            ([Term([A(0, (0, x)), A(1)], fac)] if not a.startswith("F:") else [])) for d, _ in r]
                add("mixed", f"{a}*{b}:{c}:{rkey(r)}", "e", cell, quads, [a, b], [c] if c else [], 0, None, 1, DTS[n % 4])

# 6. sides of interior facets, one side only included
n = 0
for cell in CELLS:
    t = TD[cell]
    for a, gdeg in itertools.product(("P1", "P2", "DG0", "N1"), (1, 2)):
        v = variants(cell, a)
        for ss in itertools.product((0, 1), repeat=3):
            for r in RULES["f"]:
                n += 1
                if not TH and t == 3 and n % 5:
                    continue
                x = (0,) * (t - 1) + (1,)
                quads = [TQ(d, [Term([A(0, v[-1], ss[0]), A(1, v[0], ss[1])],
                                     scale("i", t) + (("J", 1, 0, ss[2]), W(0, (0, x), ss[2])))]) for d, _ in r]
                add("sides", f"{a}:{ss}:{rkey(r)}", "i", cell, quads, [a, a], ["P2"], 0, None, gdeg, DTS[n % 4])

# 7. unfitted boundaries of several degrees: one loop
for cell in CELLS:
    t = TD[cell]
    for ex, dt, rr in itertools.product(((), (1,), (1, 2)), DTS, (((5, 1),), ((2, 0), (5, 1)))):
        quads = [TQ(d, [Term([A(0)], ((("n", i),) if u else ()) + scale("c", t)) for i in range(t)], bool(u),
                    extra=ex if u else ()) for d, u in rr]
        add("degrees", f"{rkey(rr)}:{ex}", "c", cell, quads, ["P2"], [], t, 0, 1, dt)


STATES = ("cut", "full", "cut", "empty", "cut")
BATCH = 12
out = vf.fresh_dir(vf.BUILD / "c03")
ROWS = len(STATES)


def make(c, tag=""):
    quads = []
    for q in c["quads"]:
        pts = K.unfitted_rule(TD[c["cell"]]) if q.unfitted else None
        quads.append(TQ(q.degree, q.terms, q.unfitted, pts, q.extra))
    return Itg(f"{c['serial']:x}{tag}", c["kind"], c["cell"], quads, [resolve(c["cell"], n) for n in c["args"]],
               [resolve(c["cell"], n) for n in c["coeffs"]], c["nconst"], c["normal_at"], c["gdeg"], (0,), c["dtype"])


def reference(c):
    """FFCx' own kernel, for entities with their standard rules (unfitted boundaries add nothing there)."""
    i = make(c, "r")
    i.quads = [q for q in i.quads if not q.unfitted]
    i.make_normal = lambda: None
    return i


GU = {}


def guard(name):
    if name not in GU:
        GU[name] = K.Guard()
    return GU[name]


def coords(itg):
    X = basix.ufl.element("Lagrange", itg.cell, itg.gel.embedded_superdegree if False else GDEG[itg.name])
    p = X.basix_element.points if hasattr(X, "basix_element") else X._element.points
    out_ = []
    for s in range(itg.width):
        y = np.zeros((len(p), 3))
        t = p.shape[1]
        M = np.array([[1.5, 0.25, 0.125], [-0.375, 1.25, 0.25], [0.25, -0.5, 1.75]])[:t, :t] + 0.25 * s
        y[:, :t] = p @ M.T + 0.0625 * np.sin(np.arange(p.size) * 1.7 + s).reshape(p.shape) + s
        out_.append(y)
    return np.concatenate(out_)


GDEG = {}


def run_one(c, itg, data, lib, ref):
    """Yields (key, nontrivial, message or None)."""
    dt = np.dtype(c["dtype"])
    real = np.zeros(0, dt).real.dtype
    kind = c["kind"]
    short = {"cell": "cell", "exterior_facet": "exterior_facet", "interior_facet": "interior_facet"}[kind]
    ents = entities(short, ROWS, "given")
    mesh, dom = setup(short, c["cell"], ents, STATES)
    arr = dom_array(short, ents)
    cs = sum(e.dim for e in itg.coeffs)
    old = (old_coeffs(ROWS * itg.width, cs, dt.type) / 16).astype(dt)
    form = types.SimpleNamespace(
        _ufcx_form=types.SimpleNamespace(form_integral_offsets=[0] * (K.IT[kind].value + 1) + [1] * (5 - K.IT[kind].value),
                                         form_integral_ids=[0]),
        _cpp_object=types.SimpleNamespace(domains=lambda t, p: arr, mesh=mesh, pack=lambda: {(K.IT[kind], 0): old}))
    packed = CC.CustomCoeffsPacker(form, dom, [data]).pack_coefficients()[K.IT[kind], 0]
    w, waddr = guard("w").put(packed.reshape(-1))
    ncols = packed.shape[1]
    const = (np.arange(itg.nconst) * 0.5 + 0.75).astype(dt)
    if itg.normal_at is not None:
        const[itg.normal_at:itg.normal_at + itg.tdim] = 0
    if dt.kind == "c":
        const = (const * (1 + 0.25j)).astype(dt)
    k, kaddr = guard("c").put(const)
    GDEG[itg.name] = c["gdeg"]
    x, xaddr = guard("x").put(coords(itg).astype(real))
    fn = K.kernel(lib, f"integral_{itg.name}_{itg.cell}", c["dtype"])
    rfn = K.kernel(lib, f"integral_{ref.name}_{ref.cell}", c["dtype"]) if ref else None
    nA = int(np.prod(itg.dims())) if itg.dims() else 1
    A0 = ((np.arange(nA) % 7 - 3) / 8).astype(dt)
    Ag = guard("A")
    spec = [(q.degree, q.unfitted) for q in itg.quads]
    mixed = itg.mixed_dim()
    for i, (e, st) in enumerate(zip(ents, STATES)):
        sides = [] if kind == "cell" else [e] if kind == "exterior_facet" else list(e)
        li, la = guard("l").put(np.array([f for _, f in sides], dtype=np.int32))
        qp, qa = guard("q").put(np.array([mesh.perms[cc, f] for cc, f in sides], dtype=np.uint8))
        base = itg.width * i * ncols
        a, aaddr = Ag.put(A0)

        def call(f, wa):
            f(aaddr, wa, kaddr if itg.nconst else 0, xaddr, la, qa, None)
            return a.copy()

        got = call(fn, waddr + base * dt.itemsize)
        if st == "cut":
            ex = expected(short, mixed, e, spec, mesh, None)
            qd = [(np.array([r["points"], r["points_s1"]]) if "points_s1" in r else [r["points"]], r.get("points_facet"),
                   r["weights"], r.get("normals")) for r in ex]
            row = old[itg.width * i:itg.width * (i + 1)].reshape(-1) if cs else np.zeros(0, dt)
            add_ = evaluate(itg, qd, row.astype(complex), const.astype(complex), x.astype(float).reshape(-1),
                            [f for _, f in sides])
            want = A0 + add_
            npts = sum(len(r["weights"]) for r in ex)
        else:
            a[...] = A0
            want = A0.copy()
            if st == "full" and rfn:
                old_row = np.ascontiguousarray(old[itg.width * i:itg.width * (i + 1)].reshape(-1)) if cs else np.zeros(1, dt)
                want = call(rfn, old_row.ctypes.data)
            npts = 0
        eps = 2e-3 if real == np.float32 else 1e-10
        tol = eps * (1 + np.abs(want).max()) * (1 if st == "cut" else 1e-2)
        ok = np.all(np.isfinite(got)) and np.all(np.abs(got - want) <= tol)
        msg = None
        if not ok:
            bad = int(np.argmax(~(np.abs(got - want) <= tol)))
            msg = f"entity {e} ({st}): entry {bad} is {got[bad]} instead of {want[bad]}"
        yield st, npts > 0, msg


def work(item, at):
    batch = [c for c in catalogue[item * BATCH:(item + 1) * BATCH] if chk.want(c["key"])]
    jobs = []
    for c in batch:
        at(c["key"])
        try:
            itg = make(c)
            opts = {"scalar_type": np.dtype(c["dtype"]), "sum_factorization": False, "_order": c["order"],
                    "_start": c["serial"] % 3}
            _, src, datas = QC.compile_ufl_objects([itg], opts)
        except Unsupported:
            yield ("skip", c["key"])
            continue
        except Exception as e:  # noqa: BLE001
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            tb = [f for f in tb if "/qugar/" in f.filename] or tb
            if isinstance(e, ValueError) and any(x in MAY_RAISE for x in list(c["args"]) + list(c["coeffs"])):
                yield ("refused", c["key"])
                continue
            yield ("fail", c["key"], f"code generation: {type(e).__name__}: {e} in {tb[-1].name}")
            continue
        ref = reference(c)
        rsrc = ""
        if ref.quads:
            rsrc, _ = generate(ref, K.Numbers(), c["order"])
        else:
            ref = None
        jobs.append((c, itg, datas[0], src, ref, rsrc))
    if not jobs:
        return
    so, err = K.compile_c(out, f"b{item}", "\n".join(j[3] + j[5] for j in jobs))
    libs = {}
    if so is None:
        for j in jobs:
            s1, e1 = K.compile_c(out, f"b{item}_{j[0]['serial']}", j[3] + j[5])
            if s1 is None:
                yield ("fail", j[0]["key"], "the generated code does not compile: " + first_error(e1))
            else:
                libs[j[0]["serial"]] = C.CDLL(str(s1))
    else:
        lib = C.CDLL(str(so))
        libs = {j[0]["serial"]: lib for j in jobs}
    for c, itg, data, src, ref, _ in jobs:
        if c["serial"] not in libs:
            continue
        at(c["key"])
        try:
            res = list(run_one(c, itg, data, libs[c["serial"]], ref))
        except Exception as e:  # noqa: BLE001
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            yield ("fail", c["key"], f"{type(e).__name__}: {e} in {tb[-1].filename.split('/')[-1]}:{tb[-1].lineno} {tb[-1].name}")
            continue
        yield ("ok", c["key"], c["fam"], res)
    for f in out.glob(f"*b{item}[._]*"):
        if vf.ONLY is None:
            f.unlink()


def first_error(err):
    e = [x for x in err.splitlines() if "error" in x]
    return e[0][-300:] if e else err[:300]


err = K.build_shim(out)
if err:
    chk.case("build", "shim")
    chk.fail("build", "the shim does not compile: " + err[-600:])
    chk.finish()
import pool  # noqa: E402

items = [k for k in range(-(-len(catalogue) // BATCH))]
if vf.ONLY:
    items = [k for k in items if any(chk.want(c["key"]) for c in catalogue[k * BATCH:(k + 1) * BATCH])]
skipped = 0
for r in pool.run(len(items), lambda k, at: work(items[k], at), 8, tick=chk.at):
    if r[0] == "skip":
        skipped += 1
    elif r[0] == "refused":
        chk.case("refused", r[1])
    elif r[0] == "fail":
        chk.case("integral", r[1])
        chk.fail(r[1], r[2])
    elif r[0] == "crash":
        chk.case("integral", r[1])
        chk.fail(r[1], r[2])
    else:
        for n_, (st, nt, msg) in enumerate(r[3]):
            chk.case(f"{r[2]}/{st}", f"{r[1]}#{n_}", nt)
        for st, nt, msg in r[3]:
            if msg:
                chk.fail(r[1], msg)
                break
chk.extra["integrals"] = len(catalogue)
chk.extra["left out (collocated tables, which FFCx treats apart)"] = skipped
print(f"{len(catalogue)} integrals, {skipped} left out")
chk.finish()
