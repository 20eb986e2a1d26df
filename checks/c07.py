"""C07: modules of generated kernels. Every sequence of integrals of an alphabet, split into forms in every way,
goes through the real pipeline (`compile_ufl_objects`); the module is compiled and linked together with others,
and every integral of it is compared with the same integral compiled alone. Then the real JIT driver, over every
short history of compilations and failures."""
import ctypes as C
import hashlib
import io
import itertools
import json
import logging
import os
import re
import subprocess
import sys
import types

import numpy as np

import kernworld as K  # installs the stand-ins
import fakeufl
import vf
from ffcxgen import FACET, Fun, Itg, TQ, Term

DUMP = os.environ.get("VF_C07_DUMP")
chk = vf.Check(
    "C07", "exploration",
    "one case = one module (sequence of integrals, split into forms, cell, scalar type) generated, compiled, linked, run and "
    "compared with its integrals alone; or one history of JIT compilations with a fault at a step; non-trivial: several "
    "integrals, or a fault",
    ["FFCx is replaced by a generator that writes kernels and forms in the form of FFCx 0.10",
     "cffi is replaced by a stand-in that calls gcc with the arguments it is given"]) if not DUMP else None
import basix  # noqa: E402
import basix.ufl  # noqa: E402

# ---- stand-ins for the drivers -----------------------------------------------------------------------
out = vf.fresh_dir(vf.BUILD / "c07") if not DUMP else vf.BUILD / "c07"

# FFCx' and DOLFINx' drivers, as far as qugar uses them
import cffi  # noqa: E402
import dolfinx.jit as DJ  # noqa: E402
import ffcx.codegeneration as FC  # noqa: E402
import ffcx.codegeneration.C.file_template as FT  # noqa: E402
import ffcx.codegeneration.jit as FJ  # noqa: E402
import ffcx.analysis  # noqa: E402
import ffcx.formatting  # noqa: E402
import ffcx.naming  # noqa: E402
import ffcx.options  # noqa: E402
import shutil  # noqa: E402
import tempfile  # noqa: E402

DEFAULTS = {"scalar_type": np.float64, "sum_factorization": False, "table_rtol": 1e-6, "epsilon": 1e-14}
ffcx.options.get_options = lambda o=None: {**DEFAULTS, **(o or {})}
ffcx.naming.compute_signature = lambda forms, tag: hashlib.sha1(("".join(f.sig for f in forms) + tag).encode()).hexdigest()
ffcx.naming.form_name = lambda form, i, prefix: f"form_{prefix}_{i}"
FC.get_include_path = lambda: str(out)
FT.libraries = LIBS = ["m"]
FJ.UFC_HEADER_DECL = "typedef {} ufcx_scalar_t;\n"
FJ.UFC_INTEGRAL_DECL, FJ.UFC_FORM_DECL = "typedef struct ufcx_integral ufcx_integral;\n", "typedef struct ufcx_form ufcx_form;\n"
FJ._compute_option_signature = lambda o: str(sorted((k, str(v)) for k, v in o.items()))
FJ._compilation_signature = lambda args, debug: str(args) + str(debug)
FJ.logger, FJ.root_logger = logging.getLogger("ffcx"), logging.getLogger()
state = {}


def load_objects(cache_dir, module_name, names):
    so = cache_dir / f"{module_name}.so"
    # a copy of its own: the loader would give back an earlier library of the same name
    state["n"] = state.get("n", 0) + 1
    mine = out / f"load{os.getpid()}_{state['n']}.so"
    shutil.copy(so, mine)
    lib = C.CDLL(str(mine))
    if vf.ONLY is None:
        mine.unlink()
    return [C.addressof(C.c_char.in_dll(lib, n)) for n in names], lib


def get_cached_module(module_name, names, cache_dir, timeout):
    c = cache_dir / f"{module_name}.c"
    cache_dir.mkdir(exist_ok=True, parents=True)
    try:
        open(c, "x").close()
        return None, None
    except FileExistsError:
        if c.with_suffix(".c.cached").exists():
            return load_objects(cache_dir, module_name, names)
        raise TimeoutError(f"JIT compilation timed out, probably due to a failed previous compile. Try cleaning cache {c}")


FJ._load_objects, FJ.get_cached_module = load_objects, get_cached_module
memo = {}


class Boom(Exception):
    pass


def fault(step):
    if state.get("fault") == step:
        state["hit"] = Boom(step)
        raise state["hit"]


class FFI:
    def set_source(self, name, code, **k):
        fault("set_source")
        self.name, self.code, self.k = name, code, k

    def cdef(self, d):
        fault("cdef")
        self.decl = d

    def compile(self, tmpdir, verbose, debug):
        print("running build_ext")
        logging.getLogger().warning("a message of the build")
        state["out"], state["ld"] = sys.stdout, os.environ.get("LDSHARED")
        fault("compile before")
        c = tmpdir / f"{self.name}.c"
        c.write_text(self.code)
        fault("compile")
        k = self.k
        args = (self.code, str(k["include_dirs"]), str(k["extra_compile_args"]), str(k["libraries"]), str(k["library_dirs"]),
                str(k["extra_link_args"]), debug)
        if args not in memo:
            so = out / f"memo{os.getpid()}_{len(memo)}.so"
            e = gcc("-O0", "-fPIC", "-shared", "-w", "-Werror=implicit-function-declaration", *k["extra_compile_args"],
                    *[f"-I{d}" for d in k["include_dirs"]], "-o", str(so), str(c), "-Wl,--no-undefined",
                    *[f"-L{d}" for d in k["library_dirs"]], *[f"-l{x}" for x in k["libraries"]], *k["extra_link_args"])
            if e:
                raise RuntimeError("gcc: " + e)
            memo[args] = so
        shutil.copy(memo[args], tmpdir / f"{self.name}.so")
        state["compiled"].append((self.name, k, debug, self.decl))
        fault("compile after")


cffi.FFI = FFI
DJ.get_options = lambda o=None: {"cache_dir": state["cache"], "cffi_extra_compile_args": ["-g0"], **(o or {})}
DJ.mpi_jit_decorator = lambda f: (lambda comm, *a, **k: f(*a, **k))
def ensure_built(*a, **k):
    fault("shim")
    return out, "qwrap"


sys.modules["qugar.dolfinx._shim"] = types.ModuleType("qugar.dolfinx._shim")
sys.modules["qugar.dolfinx._shim"].ensure_built = ensure_built


def faulty(mod, name, step):
    f = getattr(mod, name)

    def g(*a, **k):
        fault(step)
        return f(*a, **k)

    setattr(mod, name, g)


faulty(ffcx.analysis, "analyze_ufl_objects", "analysis")
faulty(K.rep, "compute_ir", "representation")
faulty(K.cg, "generate_code", "generation")
faulty(ffcx.formatting, "format_code", "format")

import qugar.dolfinx.compiler as QC  # noqa: E402
import qugar.dolfinx.custom_coefficients as CC  # noqa: E402
from packworld import dom_array, entities, old_coeffs, setup  # noqa: E402

TH = vf.THOROUGH
STATES = ("cut", "full", "cut", "empty")
TD = {"triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}
_el = {}


def el(cell, name):
    if (cell, name) not in _el:
        c = FACET[cell] if name.startswith("F:") else cell
        n = name.removeprefix("F:")
        _el[cell, name] = {
            "P1": lambda: basix.ufl.element("P", c, 1), "P2": lambda: basix.ufl.element("P", c, 2),
            "DG0": lambda: basix.ufl.element("DG", c, 0), "vP1": lambda: basix.ufl.element("P", c, 1, shape=(TD[cell],)),
            "N1": lambda: basix.ufl.element("N1curl", c, 1)}[n]()
    return _el[cell, name]


def A(num, der=(), comp=0, side=0):
    return Fun("arg", num, comp, der, side)


def W(num, der=(), comp=0, side=0):
    return Fun("coeff", num, comp, der, side)


def letter(x, cell, name, ids, dtype):
    """The integrals of the alphabet. Capital letters: other rules than the same small letter."""
    t = TD[cell]
    z, dx, dy = (0,) * t, (1,) + (0,) * (t - 1), (0,) * (t - 1) + (1,)
    J = ("J", 0, 0, 0)
    at = dict(nconst=0, normal_at=None, gdeg=1)

    def mk(kind, quads, args, coeffs=(), **k):
        qs = [TQ(d, ts, bool(u), K.unfitted_rule(t) if u else None, e) for d, u, ts, e in [(*q, ())[:4] for q in quads]]
        return Itg(name, kind, cell, qs, [el(cell, a) for a in args], [el(cell, c) for c in coeffs], ids=ids, dtype=dtype,
                   **{**at, **k})

    tt = [Term([A(0, z), A(1, dx)], (J,)), Term([A(0, dy), A(1, z)], (J,))]
    nrm = [Term([A(0, z)], (("n", k), J, ("c", t))) for k in range(t)]
    if x == "m":  # mass and more, one rule
        return mk("cell", [(2, 0, tt)], ["P1", "P1"])
    if x == "c":  # coefficient and constant, two rules
        return mk("cell", [(2, 0, [Term([A(0, z)], (J, W(0, z)))]), (4, 0, [Term([A(0, dx)], (J, W(0, dx), ("c", 0)))])],
                  ["P2"], ["P1"], nconst=1)
    if x == "u":  # unfitted boundary with normals
        return mk("cell", [(3, 1, nrm)], ["P1"], nconst=t + 1, normal_at=0)
    if x == "U":  # unfitted boundary of another degree, normal somewhere else, with a rule for the inside
        ts = [Term([A(0, z)], (("n", k), J, ("c", 0), W(0, z))) for k in range(t)]
        return mk("cell", [(2, 0, [Term([A(0, dx)], (J,))]), (5, 1, ts)], ["P2"], ["P2"], nconst=t + 2, normal_at=1)
    if x == "e":
        return mk("exterior_facet", [(2, 0, [Term([A(0, z), A(1, dx)], (J, ("ref", 0), W(0, z)))])], ["P1", "P2"], ["DG0"])
    if x == "x":  # mixed dimensions
        return mk("exterior_facet", [(4, 0, [Term([A(0, z), A(1, z)], (J, ("ref", 0)))]),
                                     (2, 0, [Term([A(0, dx), A(1, z)], (J,))])], ["P2", "F:P1"])
    if x == "i":
        return mk("interior_facet", [(2, 0, [Term([A(0, z, 0, 0), A(1, dx, 0, 1)], (J, ("ref", 0), W(0, z, 0, 1))),
                                             Term([A(0, z, 0, 1), A(1, z, 0, 0)], (("J", 1, 0, 1),))])], ["P1", "P2"], ["P1"])
    if x == "0":  # no arguments
        return mk("interior_facet", [(4, 0, [Term([], (J, W(0, z, 0, 0), W(1, dx, 0, 1)))])], [], ["P1", "P2"])
    if x == "v":  # vector-valued
        return mk("cell", [(3, 0, [Term([A(0, z, 1), A(1, z)], (J,)), Term([A(0, dx, 0), A(1, dy)], (J,))])], ["vP1", "N1"])
    # rules whose three-digit names coincide: 15 and 26 of triangles, 27 of triangles and the unfitted one of 2D
    d = {"A": 15, "B": 26, "C": 27}[x]
    if t == 2:
        return mk("cell", [(d, 0, [Term([A(0, dx)], (J, W(0, z)))])], ["P2"], ["P1"])
    return mk("exterior_facet", [(d, 0, [Term([A(0, dx)], (J, ("ref", 0), W(0, z)))])], ["P2"], ["P1"])


def alphabet(cell):
    return "mcuUexi0v" + {"triangle": "ABC", "tetrahedron": "AB"}.get(cell, "")


class Form(fakeufl.Form):
    def __init__(self, itgs, sig=""):
        self.itgs, self.sig = itgs, sig


def build(prefix, word, split, cell, dtype):
    """The forms of a module. `split`: lengths of the forms."""
    forms, k = [], 0
    for f, n in enumerate(split):
        num, itgs = {}, []
        for x in word[k:k + n]:
            kind = {"e": 1, "x": 1, "i": 2, "0": 2}.get(x, 0)
            if x in "AB" and cell == "tetrahedron":
                kind = 1
            s = num.get(kind, 0)
            ids = (s, s + 1, s + 7) if x == "c" else (s,)
            num[kind] = ids[-1] + 1
            name = hashlib.sha1(f"{prefix}:{f}:{k}".encode()).hexdigest()
            itgs.append(letter(x, cell, name, ids, dtype))
            k += 1
        forms.append(Form(itgs))
    return forms


def splits(n):
    for cuts in itertools.product((0, 1), repeat=n - 1):
        s, m = [], 1
        for c in cuts:
            if c:
                s.append(m)
                m = 1
            else:
                m += 1
        yield (*s, m)


catalogue = []


def add(cell, word, split, dtype, start=0, order=1):
    catalogue.append(dict(key=f"module:{cell}:{word}:{'+'.join(map(str, split))}:{dtype}:{start}:{order}", cell=cell, word=word, split=split,
                          dtype=dtype, start=start, order=order, prefix=f"libffcx_forms_{len(catalogue):08x}"))


for cell in TD:
    al = alphabet(cell)
    for n in range(1, 4 if not TH or cell != "triangle" else 5):
        for word in map("".join, itertools.product(al, repeat=n)):
            h = int(hashlib.sha1(word.encode()).hexdigest(), 16)
            if n == 3 and cell != "triangle" and not (TH and TD[cell] == 2):
                if len(set(word)) < 3 or (not TH and h % 31):
                    continue
            if n == 3 and not TH and len(set(word) & set("ABC")) == 3:
                pass
            ss = list(splits(n))
            if n == 3 and not TH:
                ss = [ss[h % 4]]
            if n == 4:
                if len(set(word)) < 4 or list(word) != sorted(word, key=lambda c: hashlib.sha1((word[0] + c).encode()).digest()):
                    continue
                ss = [ss[h % 8], ss[0]]
            for s in ss:
                add(cell, word, s, "float64", h % 3, 1 if h % 5 else -1)
            if n == 2 and (TD[cell] == 2 or TH):
                for dt in ("float32", "complex64", "complex128"):
                    if TH or dt == "complex128" or cell == "triangle":
                        add(cell, word, ss[h % len(ss)], dt, h % 3)


def opts_of(c):
    return {"scalar_type": np.dtype(c["dtype"]), "sum_factorization": False, "_order": c["order"], "_start": c["start"],
            "custom": True}


def source(c):
    forms = build(c["prefix"], c["word"], c["split"], c["cell"], c["dtype"])
    o = opts_of(c)
    h, src, datas = QC.compile_ufl_objects(forms, o, prefix=c["prefix"])
    return forms, h, src, datas, o


if DUMP:  # the same modules under another ordering of sets
    d = {}
    for c in catalogue:
        if len(c["word"]) <= 2:
            _, h, src, datas, _ = source(c)
            d[c["key"]] = hashlib.sha1((h + src + repr([(x.name, x.subdomain_ids) for x in datas])).encode()).hexdigest()
    print(json.dumps(d))
    os._exit(0 if not sys.stdout.flush() else 1)

GU = {}


def guard(name):
    if name not in GU:
        GU[name] = K.Guard()
    return GU[name]


def run_kernel(itg, data, lib):
    """What qugar packs for the integral, and the tensors of an entity of every class."""
    dt = np.dtype(itg.dtype)
    kind, n = itg.kind, len(STATES)
    ents = entities(kind, n, "given")
    mesh, dom = setup(kind, itg.cell, ents, STATES)
    arr = dom_array(kind, ents)
    cs = sum(e.dim for e in itg.coeffs)
    old = (old_coeffs(n * itg.width, cs, dt.type) / 16).astype(dt)
    ids = list(data.subdomain_ids)
    form = types.SimpleNamespace(
        _ufcx_form=types.SimpleNamespace(form_integral_offsets=[0] * (K.IT[kind].value + 1) + [len(ids)] * (5 - K.IT[kind].value),
                                         form_integral_ids=ids),
        _cpp_object=types.SimpleNamespace(domains=lambda t, p: arr, mesh=mesh, pack=lambda: {(K.IT[kind], k): old for k in range(len(ids))}))
    p = CC.CustomCoeffsPacker(form, dom, [data]).pack_coefficients()
    packed = p[K.IT[kind], 0]
    assert all(np.array_equal(p[K.IT[kind], k], packed, equal_nan=True) for k in range(len(ids))), "coefficients differ among subdomains"
    _, waddr = guard("w").put(packed.reshape(-1))
    ncols = packed.shape[1]
    const = (np.arange(itg.nconst) * 0.5 + 0.75).astype(dt)
    if itg.normal_at is not None:
        const[itg.normal_at:itg.normal_at + itg.tdim] = 0
    _, kaddr = guard("c").put(const)
    p_ = itg.gel.basix_element.points if hasattr(itg.gel, "basix_element") else itg.gel._element.points
    t = itg.tdim
    M = np.array([[1.5, 0.25, 0.125], [-0.375, 1.25, 0.25], [0.25, -0.5, 1.75]])[:t, :t]
    xs = []
    for s in range(itg.width):
        y = np.zeros((len(p_), 3))
        y[:, :t] = p_ @ (M + 0.25 * s).T + s
        xs.append(y)
    _, xaddr = guard("x").put(np.concatenate(xs).astype(np.zeros(0, dt).real.dtype))
    fn = K.kernel(lib, f"integral_{itg.name}_{itg.cell}", itg.dtype)
    nA = int(np.prod(itg.dims())) if itg.dims() else 1
    A0 = ((np.arange(nA) % 7 - 3) / 8).astype(dt)
    res = [packed.tobytes()]
    for i, e in enumerate(ents):
        sides = [] if kind == "cell" else [e] if kind == "exterior_facet" else list(e)
        _, la = guard("l").put(np.array([f for _, f in sides], dtype=np.int32))
        _, qa = guard("q").put(np.array([mesh.perms[cc, f] for cc, f in sides], dtype=np.uint8))
        a, aaddr = guard("A").put(A0)
        fn(aaddr, waddr + itg.width * i * ncols * dt.itemsize, kaddr if itg.nconst else 0, xaddr, la, qa, None)
        res.append(a.tobytes())
    return res, A0.tobytes()


def struct_of(lib, itg):
    """The members of an integral's object other than its kernel."""
    a = C.addressof(C.c_char.in_dll(lib, f"integral_{itg.name}_{itg.cell}"))
    en = C.c_void_p.from_address(a).value
    flags = [C.c_bool.from_address(en + k).value for k in range(len(itg.coeffs))] if en else None
    k = [bool(C.c_void_p.from_address(a + 8 + 8 * j).value) for j in range(4)]
    return flags, k, C.c_bool.from_address(a + 40).value, C.c_uint64.from_address(a + 48).value


def describe(data, short):
    """An integral's data, but for its name."""
    return (data.name == short, data.integral_type, data.tdim, data.is_mixed_dim, sorted(data.subdomain_ids),
            [(q.name, q.degree, q.unfitted_boundary, q.rule.points.tobytes(), q.rule.weights.tobytes(), len(t))
             for q, t in data.quad_data_FE_tables.items()])


CFLAGS = ["-std=c17", "-O1" if TH else "-O0", "-fPIC", "-w", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types",
          "-Werror=int-conversion", "-Werror=return-type", f"-I{out}"]


def gcc(*a):
    r = subprocess.run(["gcc", *a], capture_output=True, text=True)
    return None if r.returncode == 0 else next((x[-300:] for x in r.stderr.splitlines() if "error" in x or "multiple" in x or "undefined" in x),
                                               r.stderr[:300])


def link(objs, so):
    return gcc("-shared", "-Wl,--no-undefined", "-o", str(so), *map(str, objs), f"-L{out}", "-lqwrap", "-lm", f"-Wl,-rpath,{out}")


ALONE = {}


def alone(x, cell, dtype, ids, order):
    """The integral in a module of its own."""
    k = x, cell, dtype, order
    if k not in ALONE:
        name = hashlib.sha1(f"alone:{os.getpid()}:{k}".encode()).hexdigest()
        i = letter(x, cell, name, ids, dtype)
        o = {"scalar_type": np.dtype(dtype), "sum_factorization": False, "_order": order, "custom": True}
        _, src, datas = QC.compile_ufl_objects([i], o)
        f = out / f"alone_{name}.c"
        f.write_text(src)
        e = gcc(*CFLAGS, "-c", "-o", str(f.with_suffix(".o")), str(f)) or link([f.with_suffix(".o")], f.with_suffix(".so"))
        assert e is None, f"alone: {e}"
        lib = C.CDLL(str(f.with_suffix(".so")))
        res, a0 = run_kernel(i, datas[0], lib)
        d = describe(datas[0], name)
        assert sorted(q[1:3] for q in d[5]) == sorted((q.degree, q.unfitted) for q in i.quads), f"rules of the integral alone: {[q[1:3] for q in d[5]]}"
        ALONE[k] = (res, struct_of(lib, i), (d[:4], d[5]), a0)
    return ALONE[k]


def text_checks(c, forms, h, src):
    """Yields messages: what is not an integral stays as FFCx writes it."""
    forms2 = build(c["prefix"], c["word"], c["split"], c["cell"], c["dtype"])
    o = opts_of(c)
    ir = K.compute_ir(K.analyze(forms2, o["scalar_type"]), {}, c["prefix"], o, False)
    blocks = K.generate_code(ir, o)
    h0, _ = K.format_code(blocks)
    if h != h0:
        yield "the declarations differ from those of FFCx"
    at = 0
    for line in blocks.file_pre[0][1].splitlines():
        at = src.find(line + "\n", at)
        if at < 0:
            yield f"line {line!r} of the header is missing"
            return
    head = src[: at + len(line)].splitlines()
    extra = [x for x in head if x and x not in blocks.file_pre[0][1].splitlines()]
    if not any(re.fullmatch(r"#include <stddef.h>", x) for x in head) or any(not x.startswith("#include") for x in extra):
        yield f"header with {extra}"
    for _, b in [*blocks.forms, *blocks.expressions, *blocks.file_post]:
        at = src.find(b, at)
        if at < 0:
            yield f"a block of FFCx was lost or changed: {b[:60]!r}"
            return
        at += len(b)
    if at != len(src.rstrip("\n")) and at != len(src):
        yield "text after the end of the module"
    if h.count("extern") != len(blocks.integrals) + len(blocks.forms):
        yield "number of declarations"


BATCH = 12


def work(item, at):
    jobs = []
    for c in catalogue[item * BATCH:(item + 1) * BATCH]:
        if not chk.want(c["key"]):
            continue
        at(c["key"])
        msgs = []
        try:
            forms, h, src, datas, o = source(c)
            forms2, h2, src2, datas2, _ = source(c)
        except Exception as e:  # noqa: BLE001
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            tb = [f for f in tb if "/qugar/" in f.filename] or tb
            yield (c["key"], f"code generation: {type(e).__name__}: {e} in {tb[-1].name}")
            continue
        if (h, src) != (h2, src2):
            msgs.append("the same input gives another source the second time")
        if o != opts_of(c) or list(o) != list(opts_of(c)):
            msgs.append(f"options changed to {o}")
        msgs += text_checks(c, forms, h, src)
        f = out / f"m{c['prefix'][-8:]}.c"
        f.write_text(src)
        e = gcc(*CFLAGS, "-c", "-o", str(f.with_suffix(".o")), str(f))
        if e:
            yield (c["key"], "the module does not compile: " + e)
            continue
        names = [i.name for fm in forms for i in fm.itgs] + [f"{c['prefix']}_{k}" for k in range(len(forms))]
        for line in subprocess.run(["nm", "-g", "--defined-only", str(f.with_suffix(".o"))], capture_output=True, text=True).stdout.splitlines():
            s = line.split()[-1]
            if sum(n in s for n in names) != 1:
                msgs.append(f"symbol {s} does not carry the name of its integral or form")
        jobs.append((c, forms, datas, f.with_suffix(".o"), msgs))
    if not jobs:
        return
    at(jobs[0][0]["key"] + " (and others, linked together)")
    so = out / f"b{item}.so"
    e = link([j[3] for j in jobs], so)
    libs = {}
    if e is None:
        lib = C.CDLL(str(so))
        libs = {j[0]["key"]: lib for j in jobs}
    else:
        bad = False
        for j in jobs:
            so = j[3].with_suffix(".so")
            e1 = link([j[3]], so)
            if e1 is None:
                libs[j[0]["key"]] = C.CDLL(str(so))
            else:
                bad = True
                j[4].append("the module does not link: " + e1)
        if not bad:
            yield (jobs[0][0]["key"], f"modules {[j[0]['key'] for j in jobs]} cannot be linked together: {e}")
    for c, forms, datas, _, msgs in jobs:
        at(c["key"])
        itgs = [i for fm in forms for i in fm.itgs]
        if len(datas) != len(itgs):
            msgs.append(f"{len(datas)} descriptions of {len(itgs)} integrals")
        elif c["key"] in libs:
            for x, i, d in zip(c["word"], itgs, datas):
                try:
                    res, st, ds, a0 = alone(x, c["cell"], c["dtype"], i.ids, c["order"])
                    dd = describe(d, i.name)
                    if (dd[:4], dd[5]) != ds or dd[4] != sorted(i.ids):
                        msgs.append(f"integral {x}: described as {dd[:5]} {[q[:3] for q in dd[5]]} instead of {ds[0]} {i.ids} {[q[:3] for q in ds[1]]}")
                        continue
                    if struct_of(libs[c["key"]], i) != st:
                        msgs.append(f"integral {x}: object {struct_of(libs[c['key']], i)} instead of {st}")
                        continue
                    got, _ = run_kernel(i, d, libs[c["key"]])
                    if got[0] != res[0]:
                        msgs.append(f"integral {x}: other coefficients are packed than when it is alone")
                    for s, g, r in zip(STATES, got[1:], res[1:]):
                        if g != r:
                            msgs.append(f"integral {x}: other values on a {s} entity than when it is alone")
                            break
                    if res[4] != a0 or got[4] != a0:
                        msgs.append(f"integral {x}: an empty entity adds to the tensor")
                except Exception as e:  # noqa: BLE001
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    msgs.append(f"integral {x}: {type(e).__name__}: {e} in {tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}")
        yield (c["key"], msgs[0] if msgs else None)
    for j in jobs:
        for x in out.glob(j[3].stem + ".*"):
            if vf.ONLY is None:
                x.unlink()
    (out / f"b{item}.so").unlink(missing_ok=True)


err = K.build_shim(out)
if err:
    chk.case("build", "shim")
    chk.fail("build", "the shim does not compile: " + err[-600:])
    chk.finish()
import pool  # noqa: E402

# ---- 1. modules --------------------------------------------------------------------------------------
dumps = [] if vf.ONLY else [subprocess.Popen([sys.executable, __file__], env={**os.environ, "VF_C07_DUMP": "1", "PYTHONHASHSEED": s},
                                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True) for s in ("1", "2", "77")]
items = [k for k in range(-(-len(catalogue) // BATCH))]
if vf.ONLY:
    items = [k for k in items if any(chk.want(c["key"]) for c in catalogue[k * BATCH:(k + 1) * BATCH])]
by_key = {c["key"]: c for c in catalogue}
for r in pool.run(len(items), lambda k, at: work(items[k], at), 8, tick=chk.at):
    key, msg = (r[1], r[2]) if r[0] == "crash" else r
    c = by_key.get(key)
    chk.case("module" if c is None else f"module of {len(c['word'])}", key, c is None or len(c["word"]) > 1)
    if msg:
        chk.fail(key, msg)
seen = [p.communicate()[0] for p in dumps]
seen = [json.loads(s.splitlines()[-1]) if s.strip() else None for s in seen]
if seen:
    for key in seen[0] or {}:
        chk.case("order of sets", key)
        chk.check(len({s.get(key) if s else None for s in seen}) == 1, f"hash:{key}", f"the source of {key} depends on the hash seed")
    chk.check(all(seen), "hash:run", "modules could not be generated under another hash seed")

# what qugar cannot do must not compile to something else
for what in ("vertex", "sum factorization", "several cells"):
    chk.case("refused", what)
    i = letter("m", "quadrilateral", "0" * 40, (0,), "float64")
    o = {"scalar_type": np.dtype("float64"), "sum_factorization": what == "sum factorization", "custom": True}
    keep = K.UItg.metadata, K.ru.create_quadrature_points_and_weights, QC.compute_ir
    if what == "vertex":
        K.UItg.metadata = lambda s: {"quadrature_rule": "vertex", "quadrature_degree": 2}
    elif what == "several cells":
        import qugar.dolfinx.quadrature_data as QD
        keep3 = QD.create_quadrature_points_and_weights
        QD.create_quadrature_points_and_weights = lambda *a: ({"a": [[0.5, 0.5]], "b": [[0.5, 0.5]]}, {"a": [1.0], "b": [1.0]}, {})
    if what == "sum factorization":  # is the original rule kept, or refused?
        continue
    try:
        QC.compile_ufl_objects([i], o)
        chk.fail(what, f"{what}: accepted")
    except Exception:  # noqa: BLE001
        pass
    K.UItg.metadata = keep[0]
    if what == "several cells":
        QD.create_quadrature_points_and_weights = keep3

# ---- 2. the JIT driver -------------------------------------------------------------------------------

import qugar.dolfinx.jit as QJ  # noqa: E402

FAULTS = ("shim", "analysis", "representation", "generation", "format", "set_source", "cdef", "compile before", "compile",
          "compile after", "ready")
FORMS = {"F": "cu", "G": "mi"}
VAR = {"": ({}, {}), "c": ({"scalar_type": np.complex128}, {}), "o": ({"table_rtol": 1e-7}, {}),
       "a": ({}, {"cffi_extra_compile_args": ["-O1"]}), "d": ({}, {"cffi_debug": True}),
       "l": ({}, {"cffi_libraries": ["dl"]}), "v": ({}, {"cffi_verbose": True}), "t": ({}, {"cache_dir": None})}
SAME = {"l", "v", "t"}  # do not change the module


def jit_form(f, dtype):
    g = build(f"jit{f}", FORMS[f], (len(FORMS[f]),), "triangle", dtype)[0]
    g.sig = f"form {f};"
    return g


def snapshot():
    r = logging.getLogger()
    return (dict(os.environ), list(r.handlers), [h.__class__ for h in r.handlers], r.level, list(LIBS), sys.stdout,
            os.getcwd(), list(sys.path), {k: str(v) for k, v in DEFAULTS.items()},
            [str(x) for x in (QJ.compile_forms.__defaults__ or ())])


LDS = (None, "my linker -shared -shared")


def history(ops, lds, at):
    """One history in a cache of its own. Yields messages."""
    cache = vf.fresh_dir(out / f"cache{os.getpid()}")
    state.update(cache=cache, compiled=[])
    built, cached = {}, set()
    os.environ.pop("LDSHARED", None)
    if lds:
        os.environ["LDSHARED"] = lds
    root = logging.getLogger()
    root.handlers = [logging.NullHandler()]
    for step, (f, v, fl, via) in enumerate(ops):
        fo, jo = VAR[v]
        form = jit_form(f, np.dtype(fo.get("scalar_type", np.float64)).name)
        fo, jo = dict(fo), {k: (list(x) if isinstance(x, list) else x) for k, x in jo.items()}
        state.update(fault=fl if fl != "ready" else None, hit=None)
        before, fo0, jo0 = snapshot(), str(fo), str(jo)
        n = len(state["compiled"])
        text = io.StringIO()
        real = sys.stdout
        sys.stdout = text
        if fl == "ready":
            real_open = open

            def bad_open(name, *a, **k):
                if str(name).endswith(".c.cached") and a and "x" in a[0]:
                    state["hit"] = Boom("ready")
                    raise state["hit"]
                return real_open(name, *a, **k)
            QJ.open = bad_open
        err, r = None, None
        try:
            before = (*before[:5], sys.stdout, *before[6:])
            if via == "compile_forms":
                r = QJ.compile_forms([form], options=fo, **{"cache_dir": cache, "cffi_extra_compile_args": ["-g0"], **jo})
                r = (r[3], r[0][0], r[1], r[2])
            else:
                r = QJ.ffcx_jit("comm", form, form_compiler_options=fo, jit_options=jo)
        except Exception as e:  # noqa: BLE001
            err = e
        finally:
            sys.stdout, after = real, (lambda s: s)(sys.stdout)
            if hasattr(QJ, "open"):
                del QJ.open
        now = snapshot()
        now = (*now[:5], after, *now[6:])
        what = f"step {step} ({f}{v} {fl or ''} {via})"
        names = ("environment", "handlers of the root logger", "handlers of the root logger", "level of the root logger", "FFCx' libraries",
                 "standard output", "working directory", "path", "default options", "default arguments")
        for a, b, w in zip(before, now, names):
            if a != b and not (w == "standard output" and a is b):
                yield f"{what}: {w} changed"
        if (str(fo), str(jo)) != (fo0, jo0):
            yield f"{what}: the options given were changed"
        root.handlers = [logging.NullHandler()] if before[1] != root.handlers else root.handlers
        mod = (f, v if v not in SAME else "")
        hit = state["hit"]
        new = state["compiled"][n:]
        if hit is not None or err is not None:
            if err is None or err is not hit:
                yield f"{what}: {type(err).__name__}: {err} instead of the failure of the {fl or 'nothing'}"
            left = [p.name for p in cache.glob("*.c") if not p.with_suffix(".c.cached").exists()]
            if left and v != "t":
                yield f"{what}: {left} is left behind, so later compilations of the form time out"
            continue
        data, obj, lib, code = r
        if [d.name for d in data] != [i.name for i in form.itgs]:
            yield f"{what}: the integrals described are not those of the form"
            continue
        if new:
            name, k, debug, decl = new[0]
            if len(new) > 1 or (mod in cached and v != "t"):
                yield f"{what}: compiled again"
            if name in [x for m, x in built.items() if m != mod]:
                yield f"{what}: takes the name of another module"
            if built.setdefault(mod, name) != name:
                yield f"{what}: another name than before"
            plain = "libffcx_forms_" + ffcx.naming.compute_signature(
                [form], FJ._compute_option_signature(ffcx.options.get_options(fo)) +
                FJ._compilation_signature(jo.get("cffi_extra_compile_args", ["-g0"]), jo.get("cffi_debug", False)))
            if name == plain:
                yield f"{what}: takes the name of FFCx' own module"
            if debug != jo.get("cffi_debug", False) or k["extra_compile_args"] != ["-std=c17", *jo.get("cffi_extra_compile_args", ["-g0"])]:
                yield f"{what}: compiled with {k['extra_compile_args']}, debug {debug}"
            if not set(jo.get("cffi_libraries", [])) | {"m", "qwrap"} <= set(k["libraries"]):
                yield f"{what}: linked with {k['libraries']}"
            if f"extern ufcx_form form_{name}_0;" not in decl or np.dtype(fo.get("scalar_type", np.float64)).name not in decl:
                yield f"{what}: declarations"
            if ("running build_ext" in text.getvalue()) != (v == "v"):
                yield f"{what}: output of the compiler on the standard output: {text.getvalue()[:60]!r}"
            ld = (state["ld"] or "").split()
            import sysconfig
            if set(ld) != set((sysconfig.get_config_var("LDSHARED") or "").split()) or len(ld) != len(set(ld)):
                yield f"{what}: linked by {state['ld']}"
        elif mod not in cached or v == "t":
            yield f"{what}: not compiled"
        if v != "t":
            cached.add(mod)
        for x, i, d in zip(FORMS[f], form.itgs, data):
            res, st, ds, _ = alone(x, "triangle", i.dtype, i.ids, 1)
            dd = describe(d, i.name)
            got, _ = run_kernel(i, d, lib)
            if (dd[:4], dd[5]) != ds or got != res:
                yield f"{what}: integral {x} gives other values or data than when it is alone"


ops1 = [(f, v, None, via) for f in FORMS for v in VAR for via in ("compile_forms", "ffcx_jit")]
opsF = [("F", v, fl, via) for fl in FAULTS for v in ("", "t") for via in ("compile_forms", "ffcx_jit")]
core = [("F", "", None, "ffcx_jit"), ("G", "", None, "ffcx_jit"), ("F", "c", None, "compile_forms"), ("F", "t", None, "ffcx_jit")]
coreF = [("F", "", fl, "ffcx_jit") for fl in FAULTS]
hist = [(a,) for a in ops1 + opsF]
hist += list(itertools.product(ops1 + coreF, core + coreF)) + list(itertools.product(core + coreF, ops1 + coreF))
hist += list(itertools.product(core[:2] + coreF, core[:2] + coreF, core))
if TH:
    hist += list(itertools.product(core + coreF, core + coreF, core + coreF, core[:1]))
hist = list(dict.fromkeys(hist))


def jit_work(n, at):
    for h in hist[n::64]:
        for lds in LDS if len(h) < 3 else LDS[:1]:
            key = "jit:" + ",".join("/".join(str(x or "") for x in op) for op in h) + f":{'L' if lds else ''}"
            if not chk.want(key):
                continue
            at(key)
            try:
                msgs = list(history(h, lds, at))
            except Exception as e:  # noqa: BLE001
                import traceback
                tb = traceback.extract_tb(e.__traceback__)
                msgs = [f"{type(e).__name__}: {e} in {tb[-1].filename.split('/')[-1]}:{tb[-1].lineno} {tb[-1].name}"]
            yield (key, msgs[0] if msgs else None, len(h), any(o[2] for o in h))


tempfile.tempdir = str(vf.fresh_dir(out / "tmp"))
for r in pool.run(64, jit_work, 8, tick=chk.at):
    key, msg = (r[1], r[2]) if r[0] == "crash" else r[:2]
    chk.case("history" if r[0] == "crash" else f"history of {r[2]}", key, r[0] == "crash" or r[2] > 1 or r[3])
    if msg:
        chk.fail(key, msg)
for bad in (None, 3, "form", [jit_form("F", "float64")], types.SimpleNamespace(itgs=[])):
    chk.case("not a form", repr(type(bad)))
    state.update(cache=out / "cache", compiled=[], fault=None)
    try:
        QJ.ffcx_jit("comm", bad)
        chk.fail(f"object:{type(bad).__name__}", f"{type(bad).__name__} accepted as a form")
    except Exception as e:  # noqa: BLE001
        chk.check(isinstance(e, ValueError), f"object:{type(bad).__name__}", f"{type(bad).__name__} gives {type(e).__name__}: {e}")
shutil.rmtree(out / "tmp", ignore_errors=True)
chk.extra["histories"] = len(hist)
chk.extra["modules"] = len(catalogue)
chk.finish()
