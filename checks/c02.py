"""C02: the C tabulation interface reproduces basix for every element, after every call history."""
import ctypes as C
import itertools
import os
import subprocess
import threading

import numpy as np
import basix

import vf

chk = vf.Check(
    "C02", "exploration",
    "one case = one call history (all sequences over the alphabet up to the depth, from a reset "
    "interface) or one element definition x derivative order x point set; non-trivial: the history "
    "has at least two calls, or basix accepts the element",
    ["the Python module basix and the C interface link the same native basix library"])

SRC = vf.REPO / "python/qugar/dolfinx/_shim/qugar_basix_shim.cpp"
out = vf.fresh_dir(vf.BUILD / "c02")
PREFIX = "/opt/qugar-venv"
inc = ["-std=c++20", "-O1", "-fPIC", f"-I{PREFIX}/include"]
lnk = [f"-L{PREFIX}/lib", "-lbasix", f"-Wl,-rpath,{PREFIX}/lib"]
r = subprocess.run(["/opt/vp/cxx", *inc, "-shared", *lnk[:2], lnk[2], "-o", str(out / "libshim.so"), str(SRC)],
                   capture_output=True, text=True)
if r.returncode:
    chk.case("build", "build")
    chk.fail("build", "the shim does not compile: " + r.stderr[-800:])
    chk.finish()
L = C.CDLL(str(out / "libshim.so"))
T = {"f64": (C.c_double, np.float64), "f32": (C.c_float, np.float32)}
for s, (ct, _) in T.items():
    getattr(L, f"qugar_get_scratch_{s}").restype = C.c_void_p
    getattr(L, f"qugar_get_scratch_{s}").argtypes = [C.c_long]
    getattr(L, f"qugar_tabulate_{s}").argtypes = [C.c_int, C.c_int, C.c_void_p, C.c_int, C.c_int, C.c_void_p, C.c_long]
    getattr(L, f"qugar_tabulate_shape_{s}").argtypes = [C.c_int, C.c_int, C.c_int, C.POINTER(C.c_long)]

TDIM = {basix.CellType.interval: 1, basix.CellType.triangle: 2, basix.CellType.quadrilateral: 2,
        basix.CellType.tetrahedron: 3, basix.CellType.hexahedron: 3, basix.CellType.prism: 3,
        basix.CellType.pyramid: 3}
CANARY = 7.25


def pts_for(cell, n, dt):
    d = TDIM[cell]
    base = np.array([[0.0, 0.0, 0.0], [0.3, 0.2, 0.1], [0.125, 0.25, 0.5], [0.5, 0.25, 0.125], [0.0, 1.0, 0.0]])
    if n > len(base):
        k = np.arange(n - len(base))[:, None]
        base = np.vstack([base, (k * [0.6180339887, 0.7548776662, 0.5698402910] % 1.0) / 3])
    return np.ascontiguousarray(base[:n, :d], dtype=dt)


_ref = {}


def ref_element(key, s):
    k = (key, s)
    if k not in _ref:
        fam, cell, deg, lv, dv, disc = key
        try:
            _ref[k] = basix.create_element(basix.ElementFamily(fam), basix.CellType(cell), deg,
                                           basix.LagrangeVariant(lv), basix.DPCVariant(dv), bool(disc),
                                           dtype=T[s][1])
        except Exception:  # noqa: BLE001
            _ref[k] = None
    return _ref[k]


_tab = {}


def ref_tab(key, s, nd, n):
    k = (key, s, nd, n)
    if k not in _tab:
        _tab[k] = ref_element(key, s).tabulate(nd, pts_for(basix.CellType(key[1]), n, T[s][1]))
    return _tab[k]


def reg(s, key):
    return getattr(L, f"qugar_register_element_{s}")(*key)


def check_shape(where, s, h, key, nd, n):
    o = (C.c_long * 6)(*([-77] * 6))
    rc = getattr(L, f"qugar_tabulate_shape_{s}")(h, nd, n, C.cast(o, C.POINTER(C.c_long)))
    if key is None:
        chk.check(rc < 0 and list(o) == [-77] * 6, where, f"shape of unknown handle {h}: code {rc}, output {list(o)}")
        return
    want = list(ref_tab(key, s, nd, n).shape) if n else list(ref_tab(key, s, nd, 1).shape)
    if n == 0:
        want[1] = 0
    chk.check(rc == 0 and list(o)[:4] == want and list(o)[4:] == [-77, -77], where,
              f"shape of {key} nd={nd} n={n}: code {rc}, {list(o)[:4]} instead of {want}")


def check_tab(where, s, h, key, nd, n, slack=0):
    ct, dt = T[s]
    if key is None:
        x = np.zeros((4, 3), dtype=dt)
        buf = np.full(64, CANARY, dtype=dt)
        rc = getattr(L, f"qugar_tabulate_{s}")(h, nd, x.ctypes.data, 1, 2, buf.ctypes.data, 64)
        chk.check(rc < 0 and (buf == CANARY).all(), where, f"tabulating unknown handle {h}: code {rc}")
        return
    want = ref_tab(key, s, nd, n)
    x = pts_for(basix.CellType(key[1]), n, dt)
    x0 = x.copy()
    need = want.size
    buf = np.full(need + 8, CANARY, dtype=dt)
    rc = getattr(L, f"qugar_tabulate_{s}")(h, nd, x.ctypes.data, n, x.shape[1], buf.ctypes.data, need + slack)
    if slack < 0:
        chk.check(rc < 0, where, f"{key}: too small a buffer gives code {rc}")
        chk.check((buf == CANARY).all(), where, f"{key}: too small a buffer is written")
    else:
        chk.check(rc == 0, where, f"{key} nd={nd} n={n}: code {rc}")
        chk.check((buf[need:] == CANARY).all(), where, f"{key}: writes beyond the values")
        chk.check(np.array_equal(buf[:need].reshape(want.shape), want), where,
                  f"{key} nd={nd} n={n}: values differ from basix")
    chk.check((x == x0).all(), where, "points modified")


# -- 1. every element definition -----------------------------------------------------------------
maxdeg = 4 if vf.THOROUGH else 3
fams = [int(f.value) for f in basix.ElementFamily.__members__.values() if f.name not in ("custom", "iso")] \
    if hasattr(basix.ElementFamily, "__members__") else []
if not fams:
    fams = list(range(0, 12))
cells = [c for c in TDIM]
L.qugar_shim_reset()
handles = {"f64": {}, "f32": {}}
alldefs = []
for fam in fams:
    for cell in cells:
        for deg in range(0, maxdeg + 1):
            lvs = [int(v.value) for v in basix.LagrangeVariant.__members__.values()] if deg <= (3 if vf.THOROUGH else 2) else [0, 1, 2]
            for lv in lvs:
                for dv in ([int(v.value) for v in basix.DPCVariant.__members__.values()] if deg <= 2 and lv in (0, 2, 11) else [0, 1]):
                    for disc in (0, 1):
                        alldefs.append((fam, int(cell.value), deg, lv, dv, disc))
for key in alldefs:
    for s in T:
        if s == "f32" and (key[2] > 2 or key[3] > 4):
            continue
        el = ref_element(key, s)
        before = getattr(L, f"qugar_registry_size_{s}")()
        h = reg(s, key)
        where = f"def:{s}:{key}"
        chk.case("definition", where, el is not None, f"{s} {key} accepted={el is not None}")
        after = getattr(L, f"qugar_registry_size_{s}")()
        if el is None:
            chk.check(h < 0 and after == before, where, f"rejected definition gives handle {h}, registry grew {after - before}")
            continue
        if not chk.check(h >= 0 and after == before + 1, where, f"accepted definition gives {h}, registry grew {after - before}"):
            continue
        chk.check(h not in handles[s].values(), where, f"handle {h} given twice")
        handles[s][key] = h
        chk.check(reg(s, key) == h and getattr(L, f"qugar_registry_size_{s}")() == after, where, "second registration differs")
        for nd in ((0, 1, 2) if key[2] <= 2 else (0, 1)):
            check_shape(where, s, h, key, nd, 3)
            check_tab(where, s, h, key, nd, 3)
# higher degrees, more derivatives and points; points of another dimension are refused
for fam, cell, deg, lv in [(1, c, d, v) for c in cells for d in (4, 5, 7, 8, 9, 12, 16) for v in (1, 2)] + \
        [(f, c, d, 11) for f in (2, 3) for c in cells for d in (4, 5, 6)] + [(1, c, d, 2) for c in cells for d in (1, 2)]:
    ct = basix.CellType(int(cell.value))
    if (TDIM[cell] == 3 and deg > 5) or (TDIM[cell] == 2 and deg > 9):
        continue
    key = (fam, int(cell.value), deg, lv, 0, 0)
    for s in T:
        if (s == "f32" and deg > 5) or ref_element(key, s) is None:
            continue
        where = f"high:{s}:{key}"
        chk.case("high", where)
        h = reg(s, key)
        if not chk.check(h >= 0 and h not in [x for k, x in handles[s].items() if k != key], where, f"definition gives handle {h}"):
            continue
        handles[s][key] = h
        for nd, n in ((0, 1), (1, 41), (3, 5), (0, 700)) if deg <= 5 else ((0, 2), (1, 7)):
            check_shape(where, s, h, key, nd, n)
            check_tab(where, s, h, key, nd, n)
        if deg <= 5:
            dt = T[s][1]
            for gdim in {1, 2, 3} - {TDIM[cell]}:
                x, buf = np.full((4, 3), 0.25, dtype=dt), np.full(4096, CANARY, dtype=dt)
                rc = getattr(L, f"qugar_tabulate_{s}")(h, 0, x.ctypes.data, 2, gdim, buf.ctypes.data, 4096)
                chk.check(rc < 0 and (buf == CANARY).all(), where, f"points with {gdim} coordinates give code {rc}")
for s in T:  # all handles still mean the same after everything else
    for key, h in handles[s].items():
        where = f"late:{s}:{key}"
        chk.case("definition, after all others", where)
        chk.check(reg(s, key) == h, where, "handle changed after other registrations")
        check_tab(where, s, h, key, 1, 2)
chk.extra["accepted_definitions"] = {s: len(h) for s, h in handles.items()}

# -- 2. all call histories ------------------------------------------------------------------------
P = 1
A = (P, int(basix.CellType.triangle.value), 1, 0, 0, 0)
B = (P, int(basix.CellType.triangle.value), 2, 1, 0, 0)
D = (P, int(basix.CellType.triangle.value), 1, 0, 0, 1)   # differs from A in the discontinuity only
Q = (P, int(basix.CellType.quadrilateral.value), 1, 0, 0, 0)
V = (P, int(basix.CellType.triangle.value), 3, 2, 0, 0)
W = (P, int(basix.CellType.triangle.value), 3, 1, 0, 0)   # differs from V in the variant only
BAD = (P, int(basix.CellType.triangle.value), 0, 0, 0, 0)
HD = basix.finite_element.string_to_family("DPC", "quadrilateral")
X1 = (int(HD.value), int(basix.CellType.quadrilateral.value), 2, 0, 1, 1)
X2 = (int(HD.value), int(basix.CellType.quadrilateral.value), 2, 0, 3, 1)
OPS = [("reg", k) for k in (A, B, D, Q, V, W, BAD, X1, X2)]
OPS += [("tab", 0, 0, 1, 0), ("tab", 1, 1, 3, 0), ("tab", 0, 1, 2, -1), ("tab", 2, 0, 2, 5), ("tab", -1, 0, 1, 0)]
OPS += [("shape", 0, 1, 4), ("shape", 1, 0, 0), ("scratch", 1000), ("scratch", 3), ("reset",)]
depth = 4 if vf.THOROUGH else 3
OPS2 = [(s, *o) for s in ("f64", "f32") for o in OPS if not (s == "f32" and o[0] == "reset")]


def run_history(h):
    L.qugar_shim_reset()
    model = {"f64": [], "f32": []}
    for i, (s, op, *a) in enumerate(h):
        where = f"history:{h}"
        if op == "reg":
            key = a[0]
            got = reg(s, key)
            if ref_element(key, s) is None:
                chk.check(got < 0, where, f"step {i}: rejected definition gives {got}")
            else:
                if key not in model[s]:
                    model[s].append(key)
                chk.check(got == model[s].index(key), where, f"step {i}: handle {got}, expected {model[s].index(key)}")
        elif op == "tab":
            hd, nd, n, slack = a
            key = model[s][hd] if 0 <= hd < len(model[s]) else None
            check_tab(where, s, hd, key, nd, n, slack)
        elif op == "shape":
            hd, nd, n = a
            key = model[s][hd] if 0 <= hd < len(model[s]) else None
            check_shape(where, s, hd, key, nd, n)
        elif op == "scratch":
            p = getattr(L, f"qugar_get_scratch_{s}")(a[0])
            if chk.check(p, where, f"step {i}: no scratch buffer"):
                C.memset(p, 1, a[0] * C.sizeof(T[s][0]))
        else:
            L.qugar_shim_reset()
            model = {"f64": [], "f32": []}
        for t in T:
            n = getattr(L, f"qugar_registry_size_{t}")()
            chk.check(n == len(model[t]), where, f"step {i}: registry {t} holds {n}, expected {len(model[t])}")


for d in range(1, depth + 1):
    alpha = OPS2
    if d == 4:  # deepest level: double precision and a reduced alphabet
        alpha = [o for o in OPS2 if o[0] == "f64" and o[1:] not in (("reg", B), ("reg", X1), ("reg", X2))][:14] + [("f32", "reg", A), ("f64", "reset")]
    for h in itertools.product(alpha, repeat=d):
        if d == 3 and not vf.THOROUGH and sum(o[0] == "f32" for o in h) > 1:
            continue
        chk.case(f"history of {d} calls", str(h), d > 1)
        run_history(h)
        if len(chk.fails) > 200:
            break

# -- 3. scratch buffers are private to their thread ------------------------------------------------
for s, sizes in itertools.product(T, itertools.product((1, 100, 5000), repeat=2)):
    res = {}
    bar = threading.Barrier(2)

    def work(i, n):
        a = getattr(L, f"qugar_get_scratch_{s}")(n)
        v = (T[s][0] * n).from_address(a)
        for k in range(n):
            v[k] = i + 1
        bar.wait()
        res[i] = (a, n, all(x == i + 1 for x in v), getattr(L, f"qugar_get_scratch_{s}")(1))
        bar.wait()
    th = [threading.Thread(target=work, args=(i, n)) for i, n in enumerate(sizes)]
    [t.start() for t in th]
    [t.join() for t in th]
    where = f"threads:{s}:{sizes}"
    chk.case("scratch in two threads", where)
    ok = len(res) == 2 and res[0][2] and res[1][2]
    if ok:
        (a, n, *_), (b, m, *_) = res[0], res[1]
        z = C.sizeof(T[s][0])
        ok = a + n * z <= b or b + m * z <= a
    chk.check(ok, where, "scratch buffers of two threads overlap")

# -- 4. the same under AddressSanitizer: buffers really have the requested room -------------------
drv = out / "drv.cpp"
drv.write_text(r'''
#include <cstdio>
#include <vector>
extern "C" { double* qugar_get_scratch_f64(long); float* qugar_get_scratch_f32(long);
int qugar_register_element_f64(int,int,int,int,int,int); int qugar_tabulate_f64(int,int,const double*,int,int,double*,long);
int qugar_tabulate_shape_f64(int,int,int,long*); void qugar_shim_reset(); }
int main(){ const long sz[]={0,1,5,64,1000,4096}; long n=0;
 for(long a:sz)for(long b:sz)for(long c:sz)for(int m=0;m<8;++m){ const long s[3]={a,b,c};
  for(int k=0;k<3;++k){ if(m>>k&1){float*p=qugar_get_scratch_f32(s[k]);for(long i=0;i<s[k];++i)p[i]=1;}
   else{double*p=qugar_get_scratch_f64(s[k]);for(long i=0;i<s[k];++i)p[i]=1;} } ++n; }
 for(int r=0;r<3;++r){ std::vector<int> hs; for(int d=1;d<6;++d) hs.push_back(qugar_register_element_f64(1,2,d,1,0,0));
  for(int h:hs) for(int nd=0;nd<3;++nd) for(int np=1;np<4;++np){ long o[4]; qugar_tabulate_shape_f64(h,nd,np,o);
   std::vector<double> x(2*np,0.25), out(o[0]*o[1]*o[2]*o[3]); if(qugar_tabulate_f64(h,nd,x.data(),np,2,out.data(),(long)out.size())){std::printf("BAD\n");return 2;}
   std::vector<double> sm(out.size()-1); if(qugar_tabulate_f64(h,nd,x.data(),np,2,sm.data(),(long)sm.size())>=0){std::printf("BADCAP\n");return 2;} ++n;}
  qugar_shim_reset(); }
 std::printf("CASES %ld\n",n); }
''')
r = subprocess.run(["/opt/vp/cxx", *inc, "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", *lnk,
                    "-o", str(out / "drv"), str(drv), str(SRC)], capture_output=True, text=True)
if chk.check(r.returncode == 0, "asan-build", "sanitised build fails: " + r.stderr[-500:]):
    r = subprocess.run([str(out / "drv")], capture_output=True, text=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    ok = r.returncode == 0 and "CASES" in r.stdout
    chk.check(ok, "asan", f"sanitised run: exit {r.returncode} {r.stdout[-200:]} {r.stderr[:600]}")
    if ok:
        n = int(r.stdout.split()[1])
        chk.add_counts("sanitised history", n, n, ["scratch sizes 0..4096, three requests, both precisions"])
chk.finish()
