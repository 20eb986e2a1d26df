"""The real code generation of qugar (`compile_ufl_objects`) over kernels of lib/ffcxgen, compiled with gcc
and called the way DOLFINx does, with every array against a guard page."""
import ctypes as C
import enum
import mmap
import subprocess
import types
from collections import namedtuple

import numpy as np

import autostub
import fakedlf
import fakeufl
import vf

autostub.install()
fakeufl.overlay()
import ufl.cell  # noqa: E402
import ufl.finiteelement  # noqa: E402


class AbstractFiniteElement:
    """The members that UFL itself gives to every element."""
    reference_value_size = property(lambda s: int(np.prod(s.reference_value_shape, dtype=int)))
    num_sub_elements = property(lambda s: len(s.sub_elements))

    def __ne__(self, o):
        return not self == o


ufl.finiteelement.AbstractFiniteElement = AbstractFiniteElement
ufl.cell.Cell = ufl.Cell
import basix.ufl  # noqa: E402

real_element = basix.ufl.element
fakedlf.overlay()
basix.ufl.element = real_element
fakeufl.overlay()
fakeufl.forms_overlay()
import dolfinx.cpp.fem as cpp_fem  # noqa: E402
import dolfinx.fem  # noqa: E402
import dolfinx.fem.forms as dff  # noqa: E402
import dolfinx.mesh  # noqa: E402
import ffcx.analysis  # noqa: E402
import ffcx.codegeneration.codegeneration as cg  # noqa: E402
import ffcx.formatting  # noqa: E402
import ffcx.ir.elementtables  # noqa: E402
import ffcx.ir.representation as rep  # noqa: E402
import ffcx.ir.representationutils as ru  # noqa: E402
import ufl  # noqa: E402
import ufl.domain  # noqa: E402
import ufl.geometry  # noqa: E402


class IT(enum.Enum):
    cell = 0
    exterior_facet = 1
    interior_facet = 2
    vertex = 3
    ridge = 4


cpp_fem._IntegralType = cpp_fem.IntegralType = IT


class BaseForm:
    def __init__(self, form, ufcx_form=None, code=None, module=None):
        self._cpp_object, self._ufcx_form = form, ufcx_form


dff.Form = dolfinx.fem.Form = BaseForm


class UMesh:
    def __init__(self, tdim):
        self.topology, self.jshape = types.SimpleNamespace(dim=tdim), (tdim, tdim)
        self.geometry = types.SimpleNamespace(x=np.zeros((0, 3)))


dolfinx.mesh.Mesh = UMesh
cpp_fem.pack_coefficients = lambda cpp: cpp.pack()
import ffcxgen as G  # noqa: E402

ru.QuadratureRule = G.Rule
ffcx.ir.elementtables.get_modified_terminal_element = \
    lambda mt: None if mt.el is None else types.SimpleNamespace(element=mt.el, averaged=None, local_derivatives=mt.der, fc=mt.fc)
ufl.domain.extract_unique_domain = lambda t: t.ufl_dom
CodeBlocks = namedtuple("CodeBlocks", "file_pre integrals forms expressions file_post")
cg.CodeBlocks = CodeBlocks


def make_rule(itype, cell, degree, scheme, elements, tp):
    n = cell.cellname()
    p, w = G.static_points(n, "cell" if itype == "cell" else "facet", degree)
    return {n: p}, {n: w}, {n: None}


ru.create_quadrature_points_and_weights = make_rule


class UItg:
    """Integral of a form after preprocessing."""

    def __init__(self, itg, q, degree):
        self.itg = itg
        if q.unfitted:
            import qugar.dolfinx.boundary as B
            md = dict(B.ds_bdry_unf(UMesh(itg.tdim), degree=degree).metadata())
        else:
            md = {"quadrature_rule": "default", "quadrature_degree": degree}
        md.setdefault("quadrature_degree", degree)
        self.md = md

    def integral_type(self):
        return self.itg.kind

    def metadata(self):
        return self.md

    def ufl_domain(self):
        return self.itg.dom


def unfitted_rule(tdim):
    import qugar.dolfinx.boundary as B
    md = B.ds_bdry_unf(UMesh(tdim)).metadata()
    return np.array(md["quadrature_points"], dtype=float), np.array(md["quadrature_weights"], dtype=float)


class Numbers:
    def __init__(self, start=0):
        self.n, self.start = {}, start

    def __call__(self, el):
        return self.n.setdefault(el, len(self.n) + self.start)


def analyze(objs, scalar_type):
    """objs: integrals (a module with one form), or forms (with `itgs`)."""
    forms = [list(f.itgs) for f in objs] if hasattr(objs[0], "itgs") else [list(objs)]
    assert len({np.dtype(scalar_type).name} | {i.dtype for f in forms for i in f}) == 1
    data = [[types.SimpleNamespace(integrals=[UItg(i, q, d) for q in i.quads for d in (q.degree, *q.extra)])
             for i in f] for f in forms]
    return types.SimpleNamespace(form_data=[types.SimpleNamespace(integral_data=d, argument_elements=()) for d in data],
                                 objs=[i for f in forms for i in f], forms=forms, named=hasattr(objs[0], "itgs"))


def compute_ir(analysis, names, prefix, options, visualise):
    irs, codes = [], []
    number = Numbers(options.get("_start", 0))
    for i in analysis.objs:
        i.make_normal = lambda t=i.tdim: __import__("qugar.dolfinx.boundary", fromlist=["x"]).ParamNormal(UMesh(t))
        c, ir = G.generate(i, number, options.get("_order", 1))
        codes.append(c)
        irs.append(ir)
    forms = []
    for n, f in enumerate(analysis.forms):
        form = types.SimpleNamespace(integral_names={}, subdomain_ids={}, name=f"form_{prefix}_{n}", itgs=f)
        forms.append(form)
        for i in f:
            for k in i.ids:
                form.integral_names.setdefault(i.kind, []).append(f"integral_{i.name}")
                form.subdomain_ids.setdefault(i.kind, []).append(k)
    return types.SimpleNamespace(integrals=irs, forms=forms, codes=codes, named=analysis.named)


KINDS = ["cell", "exterior_facet", "interior_facet", "vertex", "ridge"]


def form_code(f):
    """The object of a form, with the integrals by kind and subdomain."""
    rows = sorted((KINDS.index(i.kind), k, n) for n, i in enumerate(f.itgs) for k in i.ids)
    ptrs = ", ".join(f"&integral_{f.itgs[n].name}_{f.itgs[n].cell}" for _, _, n in rows)
    offs = [sum(r[0] < k for r in rows) for k in range(6)]
    return f"""// Code for form {f.name}

int form_integral_offsets_{f.name}[6] = {{{", ".join(map(str, offs))}}};
static ufcx_integral* form_integrals_{f.name}[{len(rows)}] = {{{ptrs}}};
int form_integral_ids_{f.name}[{len(rows)}] = {{{", ".join(str(r[1]) for r in rows)}}};

ufcx_form {f.name} =
{{
  .signature = "{f.name}",
  .rank = {len(f.itgs[0].spaces)},
  .form_integrals = form_integrals_{f.name},
  .form_integral_ids = form_integral_ids_{f.name},
  .form_integral_offsets = form_integral_offsets_{f.name}
}};

// End of code for form {f.name}
"""


def generate_code(ir, options):
    pre = [("", "// This code was generated by FFCx\n#include <complex.h>\n#include <math.h>\n"
                "#include <stdalign.h>\n#include <stdlib.h>\n#include <string.h>\n#include <ufcx.h>\n\n")]
    decl = [(f"extern ufcx_integral {c.split('ufcx_integral ')[1].split(' ')[0]};\n", c) for c in ir.codes]
    forms = [(f"extern ufcx_form {f.name};\n", form_code(f)) for f in ir.forms] if ir.named else []
    return CodeBlocks(pre, decl, forms, [], [("", "// End of the module\n" if ir.named else "")])


def format_code(code):
    blocks = [b for part in code for b in part]
    return "".join(h for h, _ in blocks), "".join(c for _, c in blocks)


ffcx.analysis.analyze_ufl_objects = analyze
rep.compute_ir = compute_ir
cg.generate_code = generate_code
ffcx.formatting.format_code = format_code

WRAP = r"""
// Forwards to the real interface. The scratch memory is exactly as long as requested, ends at a page that
// cannot be touched, and is spoiled as soon as another request may have moved it.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <sys/mman.h>
static void *lib() { static void *h = dlopen(getenv("VF_SHIM"), RTLD_NOW | RTLD_LOCAL); if (!h) { puts(dlerror()); abort(); } return h; }
template <typename F> F sym(const char *n) { void *p = dlsym(lib(), n); if (!p) abort(); return (F)p; }
static const size_t REGION = size_t(1) << 25;
static char *region(int k) {
  static char *r[2] = {nullptr, nullptr};
  if (!r[k]) {
    r[k] = (char *)mmap(nullptr, REGION + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(r[k] + REGION, 4096, PROT_NONE);
  }
  return r[k];
}
static int cur = 0;
static size_t len[2] = {0, 0};
template <typename T> T *scratch(long n) {
  if (n < 0) abort();
  memset(region(cur) + REGION - len[cur], 0xFF, len[cur]);
  cur ^= 1;
  size_t b = size_t(n) * sizeof(T);
  if (b > REGION) return nullptr;
  len[cur] = b;
  memset(region(cur) + REGION - b, 0xFF, b);
  return (T *)(region(cur) + REGION - b);
}
extern "C" {
#define S(T, s) \
  int qugar_register_element_##s(int a, int b, int c, int d, int e, int f) { \
    static auto g = sym<int (*)(int, int, int, int, int, int)>("qugar_register_element_" #s); return g(a, b, c, d, e, f); } \
  int qugar_tabulate_##s(int h, int nd, const T *x, int n, int g_, T *o, long cap) { \
    static auto g = sym<int (*)(int, int, const T *, int, int, T *, long)>("qugar_tabulate_" #s); return g(h, nd, x, n, g_, o, cap); } \
  int qugar_tabulate_shape_##s(int h, int nd, int n, long *o) { \
    static auto g = sym<int (*)(int, int, int, long *)>("qugar_tabulate_shape_" #s); return g(h, nd, n, o); } \
  T *qugar_get_scratch_##s(long n) { return scratch<T>(n); }
S(double, f64)
S(float, f32)
}
"""
PREFIX = "/opt/qugar-venv"


def build_shim(out):
    import os
    src = vf.REPO / "python/qugar/dolfinx/_shim/qugar_basix_shim.cpp"
    (out / "wrap.cpp").write_text(WRAP)
    (out / "ufcx.h").write_text(G.UFCX_H)
    c = ["/opt/vp/cxx", "-std=c++20", "-O1", "-fPIC", "-shared"]
    for cmd in ([*c, f"-I{PREFIX}/include", "-o", str(out / "libshim.so"), str(src), f"-L{PREFIX}/lib", "-lbasix",
                 f"-Wl,-rpath,{PREFIX}/lib"],
                [*c, "-o", str(out / "libqwrap.so"), str(out / "wrap.cpp"), "-ldl"]):
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            return r.stderr
    os.environ["VF_SHIM"] = str(out / "libshim.so")
    return None


def compile_c(out, name, src):
    f = out / f"{name}.c"
    f.write_text(src)
    so = out / f"lib{name}.so"
    cc = ["gcc", "-O1"] if vf.THOROUGH else ["clang", "-O0"]
    r = subprocess.run([*cc, "-std=c17", "-fPIC", "-shared", "-w", "-Werror=implicit-function-declaration",
                        f"-I{out}", "-o", str(so), str(f), f"-L{out}", "-lqwrap", f"-Wl,-rpath,{out}"],
                       capture_output=True, text=True)
    return (so, None) if r.returncode == 0 else (None, r.stderr)


class Guard:
    """Arrays that end at a page that cannot be touched."""
    libc = C.CDLL(None, use_errno=True)

    def __init__(self, size=1 << 21):
        self.m = mmap.mmap(-1, size + 4096)
        self.size = size
        self.base = C.addressof(C.c_char.from_buffer(self.m))
        assert self.libc.mprotect(C.c_void_p(self.base + size), C.c_size_t(4096), 0) == 0

    def put(self, a):
        """Copy of an array, as (view, address)."""
        n = a.nbytes
        assert n <= self.size
        v = np.frombuffer(self.m, dtype=a.dtype, count=a.size, offset=self.size - n).reshape(a.shape)
        v[...] = a
        return v, self.base + self.size - n


DT = ["float32", "float64", "complex64", "complex128"]
ARGS = [C.c_void_p] * 7


def kernel(lib, name, dtype):
    """The kernel of an integral, through its ufcx_integral."""
    a = C.addressof(C.c_char.in_dll(lib, name))
    p = C.c_void_p.from_address(a + 8 + 8 * DT.index(dtype)).value
    assert p, "no kernel of this scalar type"
    return C.CFUNCTYPE(None, *ARGS)(p)
