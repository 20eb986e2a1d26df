"""C06: analysis of forms, measures of unfitted boundaries, quadrature rules and version ranges: every small
combination of integrals, identifiers, subdomain data and metadata, every small nesting of forms, every
sequence of measure calls up to a depth and every version of a small alphabet, on the real code."""
import enum
import gc
import hashlib
import itertools
import types

import numpy as np

import autostub
import fakedlf
import fakeufl
import vf

autostub.install()
fakedlf.overlay()
fakeufl.overlay()
fakeufl.forms_overlay()
import dolfinx.fem  # noqa: E402
import dolfinx.fem.forms as dff  # noqa: E402
import dolfinx.mesh  # noqa: E402
import ffcx.ir.representationutils as ru  # noqa: E402
import ufl  # noqa: E402

chk = vf.Check(
    "C06", "exploration",
    "one case = one pair of versions, one sequence of integrals analysed for its rules, one form compiled (with its "
    "identifiers, subdomain data and metadata), one nesting of forms, or one measure after a sequence of calls; "
    "non-trivial: it holds at least one integral, measure or two different versions",
    ["UFL's forms, integrals and measures, DOLFINx's integration domains, FFCx' rules and the compilation itself are "
     "stand-ins written from their documented behaviour (canonical order of integrals, cached subdomain data, one "
     "metadata dictionary shared by a measure and its integrals)",
     "as in DOLFINx, all the integrals of one kind in a form carry the same subdomain data"])


class IT(enum.Enum):
    cell = 0
    exterior_facet = 1
    interior_facet = 2
    vertex = 3
    ridge = 4


U2D = {k: IT[k] for k in ("cell", "exterior_facet", "interior_facet", "vertex")}


class BaseForm:
    def __init__(self, form, ufcx_form=None, code=None, module=None):
        self._cpp_object, self._ufcx_form, self._code, self._module = form, ufcx_form, code, module
        self.ufcx_form, self.code, self.module = ufcx_form, code, module


class Native:
    def __init__(self, *a, **k):
        self.a, self.k = a, k


def get_integration_domains(kind, data, ids):
    """As DOLFINx: nothing without data, the entities of each identifier of tags, or the given list."""
    if data is None:
        return []
    if isinstance(data, list):
        return [(s[0], np.array(s[1])) for s in data]
    return [(i, np.array([data.key, kind.value, int(i)])) for i in ids]


dff.Form, dff._ufl_to_dolfinx_domain, dff.get_integration_domains = BaseForm, U2D, get_integration_domains
dff.form_cpp_class = lambda dtype: types.new_class("F", (Native,), exec_body=lambda ns: ns.update(dtype=dtype))
dolfinx.fem.IntegralType = dff.IntegralType = IT
dolfinx.fem.Form = BaseForm


class Rule:
    """FFCx' rules: identified by their points."""

    def __init__(self, points, weights, tensor_factors=None):
        self.points, self.weights = np.ascontiguousarray(points), weights
        self.tensor_factors, self.has_tensor_factors = tensor_factors, tensor_factors is not None
        self._hash = None

    def __hash__(self):
        if self._hash is None:
            self.hash_obj = hashlib.sha1(self.points)
            self._hash = int(self.hash_obj.hexdigest(), 32)
        return self._hash

    def __eq__(self, o):
        return np.allclose(self.points, o.points) and np.allclose(self.weights, o.weights)

    def id(self):
        return self.hash_obj.hexdigest()[-3:]


def make_rule(kind, cell, degree, rule, elements, use_tensor_product=False):
    d = cell.topological_dimension() - (kind != "cell")
    n = degree // 2 + 1
    salt = {"default": 1, "GLL": 2}[rule]
    x = (np.arange(n * d, dtype=float).reshape(n, d) + salt * 0.37 + d) / (7.0 * n)
    name = "c" if kind == "cell" else "f"
    return {name: x}, {name: np.full(n, 1.0 / n)}, ({name: [(x[:, :1], np.ones(n))] * d} if use_tensor_product else {})


ru.QuadratureRule, ru.create_quadrature_points_and_weights = Rule, make_rule

import qugar.utils as V  # noqa: E402
import qugar.dolfinx.boundary as B  # noqa: E402
import qugar.dolfinx.forms as F  # noqa: E402
import qugar.dolfinx.quadrature_data as QD  # noqa: E402
from qugar.mesh.mesh_facets import MeshFacets  # noqa: E402
from qugar.mesh.unfitted_domain_abc import UnfittedDomainABC  # noqa: E402

# ---- 1. versions -----------------------------------------------------------------------------------
PARTS = (0, 1, 2, 9, 10, 11) if not vf.THOROUGH else (0, 1, 2, 3, 9, 10, 11, 20, 99, 100)
MAJ = (0, 1, 10, 2025) if not vf.THOROUGH else (0, 1, 2, 9, 10, 2025)
VERS = [v for v in itertools.product(MAJ, PARTS, PARTS)]
S = {v: ".".join(map(str, v)) for v in VERS}
for v in VERS:
    for w in VERS:
        k = f"version:{S[v]}:{S[w]}"
        chk.case("version", k, v != w)
        hi = (2025, 11, 11)
        lo = (0, 0, 0)
        got = V.check_version_in_range(S[v], S[w], "3000.0.0"), V.check_version_in_range(S[v], "0.0.0", S[w])
        chk.check(got == (w <= v, v < w), k, f"{S[v]} in [{S[w]}, 3000.0.0) and [0.0.0, {S[w]}): {got} instead of {(w <= v, v < w)}")
import basix  # noqa: E402
import dolfinx.cpp  # noqa: E402
import ffcx  # noqa: E402

tup = lambda s: tuple(int(x) for x in s.split("."))  # noqa: E731
for mod, fn, lo, hi in ((dolfinx.cpp, V.check_DOLFINx, V.DOLFINX_VERSION_MIN, V.DOLFINX_VERSION_MAX),
                        (basix, V.check_Basix, V.BASIX_VERSION_MIN, V.BASIX_VERSION_MAX),
                        (ffcx, V.check_FFCx, V.FFCX_VERSION_MIN, V.FFCX_VERSION_MAX),
                        (ufl, V.check_UFL, V.UFL_VERSION_MIN, V.UFL_VERSION_MAX)):
    old = mod.__version__
    near = {tuple(a + d for a, d in zip(tup(b), ds)) for b in (lo, hi) for ds in itertools.product((-1, 0, 1, 7), repeat=3)}
    for v in sorted(v for v in near if min(v) >= 0):
        mod.__version__ = ".".join(map(str, v))
        k = f"installed:{mod.__name__}:{mod.__version__}"
        chk.case("installed", k)
        ok, r = chk.guard(k, fn)
        chk.check(not ok or r == (tup(lo) <= v < tup(hi)), k, f"version {mod.__version__} accepted: {r}, range [{lo}, {hi})")
    mod.__version__ = old

# ---- 2. quadrature rules ---------------------------------------------------------------------------
QUADC = fakeufl.Cell("quadrilateral")
DOMQ = types.SimpleNamespace(ufl_cell=lambda: QUADC)
PTS = [[0.1, 0.1], [0.2, 0.2]]
ALPHA = [("cell", d, "default") for d in (0, 2, 3, 4)] + [("exterior_facet", 2, "default"), ("cell", 2, "GLL"),
         ("cell", 1, "unf"), ("cell", 6, "unf"), ("cell", 3, "unf"), ("exterior_facet", 5, "custom"), ("cell", 5, "off")]
if vf.THOROUGH:
    ALPHA += [("interior_facet", 4, "default"), ("interior_facet", 5, "default"), ("cell", 0, "custom")]


def q_integral(kind, degree, scheme):
    md = {"quadrature_degree": degree, "quadrature_rule": scheme}
    if scheme == "unf":
        md.update(quadrature_rule="custom", quadrature_points=PTS, quadrature_weights=[-1.0, -1.0], custom_unfitted_boundary=True)
    elif scheme == "off":
        md.update(quadrature_rule="default", custom_unfitted_boundary=False)
    elif scheme == "custom":
        md.update(quadrature_points=[[0.5]] if kind != "cell" else [[0.5, 0.25]], quadrature_weights=[1.0])
    return fakeufl.Integral(None, kind, DOMQ, "everywhere", md, None), md


def q_expected(seq, sumf):
    out = {}
    for kind, degree, scheme in seq:
        _, md = q_integral(kind, degree, scheme)
        if md["quadrature_rule"] == "custom":
            p, w, tf = np.asarray(md["quadrature_points"]), np.asarray(md["quadrature_weights"]), None
        else:
            tp = sumf and kind == "cell"
            pd, wd, td = make_rule(kind, QUADC, degree, md["quadrature_rule"], [], tp)
            (c,) = pd
            p, w, tf = pd[c], wd[c], td.get(c)
        r = Rule(p, w)
        hash(r)
        n = r.id()
        if n in out and out[n][0] >= degree:
            continue
        out[n] = (degree, scheme == "unf", p, w, tf is not None)
    return out


for n in range(1, 4 if not vf.THOROUGH else 5):
    for seq in itertools.product(ALPHA, repeat=n):
        for sumf, cut in ((False, 0), (True, 1), (False, n)):
            k = f"rules:{seq}:{sumf}:{cut}"
            chk.case("rules", k)
            its = [q_integral(*a) for a in seq]
            keep = [(id(m), repr(m)) for _, m in its]
            # every form: an integral with the first integrand, and another one with all the others
            halves = [[g for g in (h[:1], h[1:]) if g] for h in (range(n)[:cut], range(n)[cut:]) if h]
            data = types.SimpleNamespace(form_data=[types.SimpleNamespace(
                argument_elements=[], integral_data=[types.SimpleNamespace(integrals=[its[i][0] for i in g]) for g in h])
                for h in halves])
            groups = [g for h in halves for g in h]
            res = []
            for m in range(len(groups)):
                ok, r = chk.guard(k, QD.extract_quadrature_data, data, m, {"sum_factorization": sumf, "scalar_type": np.float64})
                if not ok:
                    break
                res.append((r, q_expected([seq[i] for i in groups[m]], sumf)))
            chk.check(keep == [(id(m), repr(m)) for _, m in its], k, "metadata of an integral was modified")
            for r, want in res:
                got = {m: (q.degree, q.unfitted_boundary, q.rule.has_tensor_factors) for m, q in r.items()}
                chk.check(got == {m: (w[0], w[1], w[4]) for m, w in want.items()} and all(q.name == m for m, q in r.items()), k,
                          f"rules {got} instead of { {m: w[:2] + w[4:] for m, w in want.items()} }")
                chk.check(all(np.array_equal(r[m].rule.points, w[2]) and np.array_equal(r[m].rule.weights, w[3])
                              for m, w in want.items() if m in r), k, "points or weights of a rule differ")

# ---- 3. forms --------------------------------------------------------------------------------------


class Num:
    def __init__(self, kind, number):
        self.kind, self.number = kind, number
        self._cpp_object = (kind, number)

    def ufl_function_space(self):
        return types.SimpleNamespace(_cpp_object=("V", self.number))


class Integrand:
    def __init__(self, name, args=(), coefs=(), consts=()):
        self.name, self.args, self.coefs, self.consts = name, args, coefs, consts


class Tags:
    def __init__(self, key):
        self.key = key


class Unf:
    ALL = {True: [(0, 1), (4, 2)], False: [(9, 9)]}

    def get_all_facets(self, ext_integral=True):
        f = self.ALL[bool(ext_integral)]
        return MeshFacets(np.array([c for c, _ in f], np.int32), np.array([x for _, x in f], np.int32))


UnfittedDomainABC.register(Unf)


class Dom:
    def __init__(self):
        self.unf_domain = Unf()
        self.msh = types.SimpleNamespace(comm="comm")

    def ufl_cargo(self):
        return self.msh


DOM = Dom()
ARGS = (Num("arg", 0), Num("arg", 1))
COEFS = tuple(Num("coef", i) for i in range(3))
CONSTS = tuple(Num("const", i) for i in range(2))
jit = {}


def ffcx_jit(comm, form, form_compiler_options=None, jit_options=None):
    jit.setdefault("calls", []).append((comm, form, dict(form_compiler_options), jit_options))
    if jit.get("raise"):
        raise RuntimeError("compilation failed")
    pos = jit.get("pos", range(len(form.coefficients())))
    u = types.SimpleNamespace(num_coefficients=len(pos), original_coefficient_positions=list(pos), tag=len(jit["calls"]))
    ffi = types.SimpleNamespace(cast=lambda t, p: (t, p), addressof=lambda o: ("addr", o))
    return [f"itg{len(jit['calls'])}"], u, types.SimpleNamespace(ffi=ffi), ("code", len(jit["calls"]))


F.ffcx_jit = ffcx_jit
ids_in = lambda i: i if isinstance(i, tuple) else (i,)  # noqa: E731
every = lambda i: not isinstance(i, tuple) and i in ("everywhere", -1)  # noqa: E731


def snap(form, metas):
    """Everything of the caller: the form, its integrals, their metadata and the cached subdomain data."""
    return (id(form._integrals), tuple((id(i), id(i._integrand), i._integral_type, id(i._ufl_domain), i._subdomain_id,
            id(i._metadata), id(i._subdomain_data)) for i in form._integrals), tuple(repr(m) for m in metas),
            repr([(k, [id(x) for x in v]) for d in form.subdomain_data().values() for k, v in d.items()]))


def describe(native):
    return native.a[4]


def judge(k, form, orig, data, dtype, opts, res, call):
    """The compiled form against the caller's one."""
    comm, jf, o, jo = call
    chk.check(comm == DOM.msh.comm and o == dict(opts or {}, scalar_type=dtype), k, f"compiled with options {o}")
    src = {id(i.integrand()): i for i in orig}
    got = list(jf.integrals())
    if not chk.check(sorted(map(id, (i.integrand() for i in got))) == sorted(src), k,
                     "the integrands compiled are not those of the form"):
        return
    used = {int(x) for i in orig if i.integral_type() == "exterior_facet" for x in ids_in(i.subdomain_id())
            if not isinstance(x, str) and x != -1}
    if isinstance(data["exterior_facet"], list):
        used |= {x for x, _ in data["exterior_facet"]}
    new = []
    for i in got:
        s = src[id(i.integrand())]
        md = dict(i.metadata() or {})
        if s.integral_type() == "exterior_facet" and every(s.subdomain_id()):
            sid = i.subdomain_id()
            chk.check(isinstance(sid, (int, np.integer)) and sid >= 0 and sid not in used, k,
                      f"identifier {sid!r} of an integral over the whole boundary is already used by another ({sorted(used)})")
            used.add(sid)
            new.append(sid)
            mark = {x: y for x, y in md.items() if x not in (s.metadata() or {})}
            chk.check(len(mark) == 1 and all(mark.values()) and all(md.get(x) is y for x, y in s.metadata().items()), k,
                      f"integral over the whole boundary is compiled with metadata {md}")
        else:
            chk.check(i.subdomain_id() == s.subdomain_id() and md == s.metadata(), k,
                      f"integral {s.integral_type()}({s.subdomain_id()!r}) is compiled as {i.subdomain_id()!r} with {md}")
        chk.check(i.integral_type() == s.integral_type() and i.ufl_domain() is s.ufl_domain(), k,
                  "kind or domain of an integral changed")
    # domains handed to DOLFINx
    nat = res._cpp_object
    sub = nat.a[4]
    want = {}
    for t in {i.integral_type() for i in orig}:
        d = data[t]
        ids = sorted(int(x) for i in orig if i.integral_type() == t for x in ids_in(i.subdomain_id())
                     if not isinstance(x, str) and not (t == "exterior_facet" and x == -1))
        want[U2D[t]] = [(int(x), y.tolist()) for x, y in get_integration_domains(U2D[t], d, ids)]
    if new:
        allf = [x for p in Unf.ALL[True] for x in p]
        want[IT.exterior_facet] += [(int(x), allf) for x in sorted(new)]
    gots = {t: [(int(x), np.asarray(y).tolist()) for x, y in v] for t, v in sub.items()}
    norm = lambda d: {t: [e for n, e in enumerate(v) if e not in v[:n]] for t, v in d.items() if v}  # noqa: E731
    chk.check(norm(gots) == norm(want), k, f"integration domains {gots} instead of {want}")
    chk.check(all([x for x, _ in v] == sorted(x for x, _ in v) for v in gots.values()), k,
              f"integration domains are not sorted by identifier: {gots}")
    chk.check(nat.a[6] is DOM.msh and nat.dtype == dtype and nat.a[0] == [("uintptr_t", ("addr", res._ufcx_form))], k,
              "the compiled form does not refer to its own mesh, type or module")


DATA_E = (None, Tags(1), [(0, [10, 0, 11, 1]), (7, [12, 1])])
INTS = [("exterior_facet", s, m) for s in ("everywhere", -1, 0, 2, np.int32(5)) for m in (0, 1)]
INTS += [("exterior_facet", (0, 3), 1), ("cell", "everywhere", 0), ("cell", 2, 1), ("interior_facet", "everywhere", 1),
         ("interior_facet", np.int64(1), 0)]
for n in range(1, 4 if not vf.THOROUGH else 5):
    for combo in itertools.combinations_with_replacement(range(len(INTS)), n):
        for de, dc in itertools.product(DATA_E, (None, Tags(2))):
            k = f"form:{[INTS[c] for c in combo]}:{'list' if isinstance(de, list) else de and 'tags'}:{dc and 'tags'}"
            data = {"exterior_facet": de, "cell": dc, "interior_facet": dc}
            metas = [{}, {"quadrature_degree": 3, "x": [1]}]
            integrals = [fakeufl.Integral(Integrand(f"f{j}", ARGS[: 1 + j % 2]), INTS[c][0], DOM, INTS[c][1], metas[INTS[c][2]],
                                          data[INTS[c][0]]) for j, c in enumerate(combo)]
            form = fakeufl.Form(integrals)
            orig = [i.reconstruct(metadata=dict(i.metadata())) for i in form.integrals()]
            before = snap(form, metas)
            opts = {"sum_factorization": False}
            for attempt in ("first", "failing", "again"):
                chk.case("form", f"{k}:{attempt}", sample=f"{k}")
                jit.clear()
                jit["raise"] = attempt == "failing"
                if attempt == "failing":
                    try:
                        F.form_custom(form, dtype=np.float32, form_compiler_options=opts)
                        chk.fail(k, "a failed compilation was not reported")
                    except RuntimeError:
                        pass
                    except Exception as e:  # noqa: BLE001
                        chk.fail(k, f"a failed compilation was reported as {type(e).__name__}: {e}")
                else:
                    ok, r = chk.guard(k, F.form_custom, form, dtype=np.float32, form_compiler_options=opts, jit_options={"a": 1})
                    if ok:
                        chk.guard(k, judge, k, form, orig, data, np.float32, opts, r, jit["calls"][0])
                        chk.check(jit["calls"][0][3] == {"a": 1} and len(jit["calls"]) == 1, k, "jit options or number of compilations")
                chk.check(snap(form, metas) == before and opts == {"sum_factorization": False}, k,
                          f"the caller's form, metadata or options were modified ({attempt})")
                if opts != {"sum_factorization": False} or snap(form, metas) != before:
                    break

# coefficients, constants, spaces, entity maps
for nc in range(4):
    for m in range(nc + 1):
        for pos in itertools.permutations(range(nc), m):
            for rank, part, maps, ncons in itertools.product((1, 2), (None, "full", "diagonal"), (None, 2), (0, 2)):
                k = f"data:{nc}:{pos}:{rank}:{part}:{maps}:{ncons}"
                chk.case("data", k, nc > 0)
                jit.clear()
                jit["pos"] = pos
                form = fakeufl.Form([fakeufl.Integral(Integrand("f", ARGS[:rank], COEFS[:nc], CONSTS[:ncons]), "cell", DOM, "everywhere", {}, None)])
                em = None if maps is None else [types.SimpleNamespace(_cpp_object=("map", i)) for i in range(maps)]
                ok, r = chk.guard(k, F.form_custom, form, form_compiler_options=part and {"part": part}, entity_maps=em, dtype=np.float64)
                if not ok:
                    continue
                a = r._cpp_object.a
                V_ = [("V", i) for i in range(rank)]
                want = (V_[:1] if part == "diagonal" else V_, [("coef", p) for p in pos], [("const", i) for i in range(ncons)],
                        [("map", i) for i in range(maps or 0)])
                chk.check((a[1], a[2], a[3], list(a[5])) == want, k, f"spaces, coefficients, constants, maps {(a[1], a[2], a[3], a[5])} instead of {want}")

# ---- 4. nestings of forms ---------------------------------------------------------------------------


def nestings(depth, leaves):
    """Every list of at most `leaves` leaves and the given depth, as nested tuples of leaf names."""
    if depth == 0:
        for n in range(leaves + 1):
            yield from itertools.product("ABE", repeat=n)
        return
    def rec(d, n):  # all nodes with exactly n leaves and depth <= d
        if n == 1:
            yield from "ABE"
        if d > 0:
            for k in range(0, n + 1):
                yield from (tuple(x) for x in seqs(d, n, k))
    def seqs(d, n, k):
        if k == 0:
            if n == 0:
                yield []
            return
        for m in range(0, n + 1):
            if m == 0 and (n > 0 or d <= 1):
                continue
            for first in rec(d - 1, m):
                for rest in seqs(d, n - m, k - 1):
                    yield [first] + rest
    for n in range(leaves + 1):
        for k in range(0, n + 1):
            for x in seqs(depth, n, k):
                yield tuple(x)


def leaves(t):
    return [y for x in t for y in (leaves(x) if isinstance(x, tuple) else [x])]


LEAF = {n: fakeufl.Form([fakeufl.Integral(Integrand(n), "cell", DOM, "everywhere", {}, None)]) for n in "AB"}
LEAF["E"] = fakeufl.Form([])
seen = set()
for tree in nestings(3 if not vf.THOROUGH else 4, 3 if not vf.THOROUGH else 4):
    if tree in seen:
        continue
    seen.add(tree)
    for con in (list, tuple, "iter"):
        k = f"nest:{tree}:{con if con == 'iter' else con.__name__}"
        chk.case("nest", k, bool(leaves(tree)))
        make = lambda t: LEAF[t] if isinstance(t, str) else (iter if con == "iter" else con)([make(x) for x in t])  # noqa: E731
        jit.clear()
        given = make(tree)
        ok, r = chk.guard(k, F.form_custom, given, dtype=np.float64)
        if ok:
            names = lambda r: [None if f is None else f._cpp_object is not None and  # noqa: E731
                               jit["calls"][f._ufcx_form.tag - 1][1].integrals()[0].integrand().name for f in r]
            want = [None if x == "E" else x for x in leaves(tree)]
            okn, got = chk.guard(k, lambda: names(r))
            chk.check(not okn or (isinstance(r, list) and got == want), k, f"forms {got} instead of {want}")
for bad in (3, None, object()):
    k = f"nest:invalid:{type(bad).__name__}"
    chk.case("nest", k, False)
    try:
        F.form_custom(bad, dtype=np.float64)
        chk.fail(k, f"{bad!r} was accepted as a form")
    except ValueError:
        pass
    except Exception as e:  # noqa: BLE001
        chk.fail(k, f"{type(e).__name__} instead of ValueError")

# ---- 5. measures of unfitted boundaries ---------------------------------------------------------------


class UDom:
    def __init__(self, jshape):
        self.jshape = jshape


class FMesh(dolfinx.mesh.Mesh):
    geometry = topology = None  # plain attributes here

    def __init__(self, gdim, tdim, dtype):
        self.u = UDom((gdim, tdim))
        self.geometry = types.SimpleNamespace(x=np.zeros((1, 3), dtype=dtype), dim=gdim)
        self.topology = types.SimpleNamespace(dim=tdim)

    def ufl_domain(self):
        return self.u


MESH = {"2d": FMesh(2, 2, np.float64), "3d": FMesh(3, 3, np.float32), "surf": FMesh(3, 2, np.float64), "2d'": FMesh(2, 2, np.float64)}
JAC = {(2, 2): [np.eye(2), np.array([[2.0, 1.0], [0.5, 3.0]]), np.array([[0.0, -1.5], [2.0, 0.25]])],
       (3, 3): [np.eye(3), np.array([[2.0, 1.0, 0.0], [0.5, 3.0, -1.0], [0.0, 0.25, 1.0]])],
       (3, 2): [np.array([[1.0, 0.0], [0.0, 2.0], [0.5, 0.5]]), np.array([[1.0, 2.0], [-1.0, 0.5], [0.25, 3.0]])]}
NORM = {2: [np.array(v) / np.hypot(*v) for v in ((1.0, 0.0), (3.0, 4.0), (-5.0, 12.0))],
        3: [np.array(v) / np.linalg.norm(v) for v in ((0.0, 0.0, 1.0), (1.0, 2.0, 2.0), (-2.0, 3.0, 6.0))]}


def stretch(J, N):
    """Ratio of physical to reference boundary area for a boundary of normal N, divided by that of the cells."""
    if len(N) == 2:
        t = np.array([-N[1], N[0]])
        b = np.linalg.norm(J @ t)
    else:
        a = np.cross(N, [1.0, 0.0, 0.0] if abs(N[0]) < 0.9 else [0.0, 1.0, 0.0])
        a /= np.linalg.norm(a)
        b = np.linalg.norm(np.cross(J @ a, J @ np.cross(N, a)))
    return b / np.sqrt(np.linalg.det(J.T @ J))


def envs(mesh):
    g, t = mesh.u.jshape
    for J in JAC[(g, t)]:
        for N in NORM[t]:
            yield J, N, {"J": J, B.ParamNormal: N}


TAG = [Tags(8), Tags(9)]
RESERVED = ("quadrature_points", "quadrature_weights", "quadrature_rule", "custom_unfitted_boundary")
fv = Num("f", 0)


class FExpr(fakeufl.Expr):
    def __init__(self):
        super().__init__("f")

    def ev(self, env):
        return env["f"]


FX = FExpr()


def normals_in(e):
    if isinstance(e, B.ParamNormal):
        return [e]
    return [n for a in getattr(e, "ufl_operands", ()) for n in normals_in(a)]


def check_measure(k, m, model, m0=None):
    mesh, sid, meta, data = model
    chk.check(isinstance(m, B.ds_bdry_unf), k, f"the measure is a {type(m).__name__}")
    md = m.metadata()
    chk.check(m.integral_type() == "cell" and m.ufl_domain() is mesh.u and m.subdomain_id() == sid
              and m.subdomain_data() is data, k, "domain, identifier or data of the measure differ")
    chk.check({a: b for a, b in md.items() if a not in RESERVED} == meta, k, f"metadata {md} instead of {meta}")
    p, w = np.asarray(md.get("quadrature_points")), np.asarray(md.get("quadrature_weights"))
    chk.check(md.get("custom_unfitted_boundary") is True and md.get("quadrature_rule") == "custom" and p.ndim == 2
              and p.shape[1] == mesh.topology.dim and w.shape == (len(p),) and len(p) > 0, k,
              f"the measure does not ask for an unfitted boundary rule: {md}")
    for fac, nm in ((m, 1), (m + m, 2)):
        ok, form = chk.guard(k, lambda: FX * fac)
        if not ok:
            return
        itg = list(form.integrals())
        ids = list(ids_in(sid)) * nm
        chk.check(sorted(map(str, ids)) == sorted(str(i.subdomain_id()) for i in itg), k, f"identifiers {[i.subdomain_id() for i in itg]} instead of {ids}")
        for i in itg:
            chk.check({id(n.domain) for n in normals_in(i.integrand())} == {id(mesh)}, k, "the normal is not the one of the domain")
            chk.check(i.integral_type() == "cell" and i.ufl_domain() is mesh.u and i.subdomain_data() is data
                      and {a: b for a, b in i.metadata().items()} == dict(md), k, "an integral differs from its measure")
            for J, N, env in envs(mesh):
                env["f"] = 3.0
                v = i.integrand().ev(env)
                want = 3.0 * stretch(J, N)
                if not chk.check(np.isclose(v, want, rtol=1e-12), k, f"integrand scaled by {v / 3.0} instead of {want / 3.0}"):
                    break


    if m0 is not None and m0.ufl_domain() is mesh.u:
        ok, form = chk.guard(k, lambda: FX * m + FX * m0)
        chk.check(not ok or len({id(n) for i in form.integrals() for n in normals_in(i.integrand())}) == 1, k,
                  "a measure derived from another on the same mesh has a normal (a constant of the form) of its own")


CALLS = {"()": (lambda m: m(), lambda s: (s[0], "everywhere", s[2], s[3])),
         "(4)": (lambda m: m(4), lambda s: (s[0], 4, s[2], s[3])),
         "((4,5))": (lambda m: m((4, 5)), lambda s: (s[0], (4, 5), s[2], s[3])),
         "(degree=7)": (lambda m: m(degree=7), lambda s: (s[0], s[1], {"quadrature_degree": 7}, s[3])),
         "(metadata)": (lambda m: m(metadata={"y": 2}), lambda s: (s[0], s[1], {"y": 2}, s[3])),
         "(data)": (lambda m: m(subdomain_data=TAG[1]), lambda s: (s[0], s[1], s[2], TAG[1])),
         "(mesh)": (lambda m: m(MESH["2d'"]), lambda s: (MESH["2d'"], "everywhere", s[2], s[3])),
         "(domain=)": (lambda m: m(2, domain=MESH["3d"]), lambda s: (MESH["3d"], 2, s[2], s[3]))}
MEAS = []
META = {"none": None, "x": {"x": 1}, "deg": {"quadrature_degree": 2}}
for mn, sid, mt, data, deg in itertools.product(("2d", "3d", "surf"), ("everywhere", 3, (1, 2)), META, (None, TAG[0]), (None, 5)):
    base_meta = dict(META[mt] or {}, **({} if deg is None else {"quadrature_degree": deg}))
    model0 = (MESH[mn], sid, base_meta, data)
    k0 = f"measure:{mn}:{sid}:{mt}:{data and 'tags'}:{deg}"
    given = META[mt] and dict(META[mt])
    ok, m0 = chk.guard(k0, B.ds_bdry_unf, domain=MESH[mn], subdomain_id=sid, metadata=given, subdomain_data=data, degree=deg)
    chk.check(given == META[mt], k0, "the metadata of the caller was modified")
    if not ok:
        continue
    deep = 2 if vf.THOROUGH or mt == "x" and data is None and deg is None else 1
    for d in range(deep + 1):
        for calls in itertools.product(CALLS, repeat=d):
            k = k0 + "".join(calls)
            chk.case("measure", k)
            m, model, prev = m0, model0, None
            okc = True
            for c in calls:
                prev = m
                okc, m = chk.guard(k, CALLS[c][0], m)
                if not okc:
                    break
                model = CALLS[c][1](model)
            if okc:
                check_measure(k, m, model, prev)
                if d <= 1 and len(MEAS) < 400:
                    MEAS.append((k, m, model))
    chk.check(MESH[mn] is m0._dolfinx_domain if hasattr(m0, "_dolfinx_domain") else True, k0, "the measure lost its mesh")
# meshes that come and go: the next one may live where the last one did
for i in range(200 if vf.THOROUGH else 60):
    gdim, tdim = list(JAC)[i % 3 if i % 2 else 0]
    k = f"lives:{i}:{gdim}:{tdim}"
    chk.case("lives", k)
    mesh = FMesh(gdim, tdim, (np.float64, np.float32)[i % 2])
    ok, m = chk.guard(k, B.ds_bdry_unf, domain=mesh)
    if ok:
        check_measure(k, m, (mesh, "everywhere", {}, None))
    del mesh, m
    gc.collect()
# equality and hashing of all pairs: by domain, identifier, metadata and data
for (ka, a, ma), (kb, b, mb) in itertools.combinations_with_replacement(MEAS, 2):
    k = f"eq:{ka}|{kb}"
    chk.case("eq", k, ka != kb)
    same = ma[0] is mb[0] and ma[1] == mb[1] and ma[2] == mb[2] and ma[3] is mb[3]
    e1, e2 = a == b, b == a
    chk.check(e1 == e2 == same and (a != b) == (not same), k, f"equal: {e1}/{e2}, same parameters: {same}")
    chk.check(not e1 or hash(a) == hash(b), k, "equal measures have different hashes")
for ka, a, ma in MEAS[:40]:
    p = fakeufl.Measure("cell", domain=ma[0], subdomain_id=ma[1], metadata=a.metadata(), subdomain_data=ma[3])
    k = f"eqplain:{ka}"
    chk.case("eq", k)
    chk.check(not (a == p) and not (p == a), k, "a measure of an unfitted boundary equals a plain one")
    ok, s = chk.guard(k, lambda: (str(a), repr(a)))
    chk.check(not ok or s[0].startswith("ds_bdry_unf") and "'unfitted_custom_boundary'" in s[1] and repr(a.subdomain_id()) in s[1], k,
              f"printed as {s}")
# normals
for mn in ("2d", "3d", "surf"):
    for norm in (True, False, None):
        k = f"normal:{mn}:{norm}"
        chk.case("normal", k)
        ok, e = chk.guard(k, B.mapped_normal, MESH[mn], **({} if norm is None else {"normalize": norm}))
        if not ok:
            continue
        for J, N, env in envs(MESH[mn]):
            v = e.ev(env)
            t = [np.array([-N[1], N[0]])] if len(N) == 2 else [np.cross(N, x) for x in np.eye(3)]
            chk.check(all(abs(v @ (J @ x)) < 1e-12 for x in t) and v @ (J @ N) > 0, k, f"{v} is not normal to the mapped boundary")
            chk.check(np.isclose(np.linalg.norm(v), 1.0 if norm is not False else stretch(J, N)), k, f"length {np.linalg.norm(v)} of the mapped normal")

chk.finish()
