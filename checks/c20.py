"""C20: the Python wrappers over the real native module (its wrappers compiled with a stand-in of
nanobind): every constructor with every optional argument present or absent, every kind of array, and
one invalid value per documented restriction; values compared with the documented formulas."""
import gc
import itertools
import math
import sys

import numpy as np

import autostub
import fakedlf
import natmod
import pool
import vf
import worlds

san = vf.THOROUGH and natmod.sanitized()  # thorough: the module with sanitizers, in a process that preloads them
path, err = natmod.build(san)
no_asserts = path is None and err
if path is None:
    path, err = natmod.build(san, extra=("-DNDEBUG",))
if path is None:
    print("ERROR: C20: the native module cannot be built\n" + err[:3000])
    sys.exit(3)

made = []  # native constructors that came back


def spy(m):
    """Notes the native objects created (before anything of qugar refers to the constructors)."""
    for n in dir(m):
        if n.startswith("create_"):
            def wrap(*a, _f=getattr(m, n), _n=n, **k):
                r = _f(*a, **k)
                made.append(_n)
                return r
            setattr(m, n, wrap)


autostub.install(cpp=False)
fakedlf.overlay()
natmod.load(path, spy)
import qugar.cpp as cpp  # noqa: E402
import qugar.impl as qi  # noqa: E402
import qugar.mesh as qm  # noqa: E402
import qugar.reparam as qr  # noqa: E402

chk = vf.Check(
    "C20", "exploration",
    "case = one call of a wrapper with one combination of arguments present/absent, positional/keyword and kinds of array, or "
    "one invalid value of a documented restriction, or one query of an object of the native module; the object built is compared "
    "with the documented formula, formulas and sets being computed here",
    ["nanobind is a stand-in (lib/nanobind) with its overload resolution, conversions and ownership rules; algoim, DOLFINx's mesh "
     "layer and UFL are stand-ins; the wrappers and the library are the sources of the tree under test",
     "use_bzr's default (the documentation contradicts itself) and the scale of planes are not judged"])
T = vf.THOROUGH
CASES = []


class Bad(Exception):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


def case(kind, key, fn):
    CASES.append((kind, f"{kind}/{key}", fn))


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def rejected(f, what):
    made.clear()
    try:
        f()
    except Exception:  # noqa: BLE001
        need(not made, f"{what}: rejected, but only after {made[0] if made else ''} came back")
        return
    raise Bad(f"{what}: accepted")


# -- kinds of array ----------------------------------------------------------------------------
def strided(a):
    b = np.zeros(tuple(2 * n for n in a.shape), dtype=a.dtype)
    b[...] = 77
    v = b[tuple(slice(None, None, 2) for _ in a.shape)]
    v[...] = a
    return v


def readonly(a):
    a = a.copy()
    a.flags.writeable = False
    return a


KINDS = {
    "f64": lambda a: np.array(a, dtype=np.float64), "f32": lambda a: np.array(a, dtype=np.float32),
    "strided": lambda a: strided(np.array(a, dtype=np.float64)), "reversed": lambda a: np.array(a, dtype=np.float64)[::-1].copy()[::-1],
    "readonly": lambda a: readonly(np.array(a, dtype=np.float64)), "f32strided": lambda a: strided(np.array(a, dtype=np.float32)),
}
SCAL = {"float": float, "f64": np.float64, "f32": np.float32}


# -- formulas ----------------------------------------------------------------------------------
def pts(d, n=5):
    g = np.array([-1.25, -0.5, 0.125, 0.375, 0.875, 1.5, 2.25][:n])
    p = np.array(list(itertools.product(g, repeat=d)))
    return p + 0.0625 * np.sin(1 + np.arange(p.size).reshape(p.shape))


def unit(v):
    v = np.asarray(v, float)
    return v / np.linalg.norm(v)


def basis2(ax):
    x = unit(ax)
    return np.array([x, [-x[1], x[0]]])


def basis3(ax, ay):
    x = unit(ax)
    z = unit(np.cross(x, unit(ay)))
    return np.array([x, np.cross(z, x), z])


def f_sphere(r, c):
    return lambda x: ((x - c)**2).sum(1) - r * r


def f_ell(a, o, B):
    return lambda x: ((((x - o) @ B.T) / a)**2).sum(1) - 1


def f_plane(o, n):
    return lambda x: (x - o) @ np.asarray(n, float)


def f_ann(a, b, c):
    return lambda x: (((x - c)**2).sum(1) - a * a) * (((x - c)**2).sum(1) - b * b)


def f_cyl(r, o, ax):
    return lambda x: ((x - o)**2).sum(1) - ((x - o) @ unit(ax))**2 - r * r


def f_tor(R, r, c, ax):
    def f(x):
        y = x - c
        q, h = (y**2).sum(1), y @ unit(ax)
        return (q + R * R - r * r)**2 - 4 * R * R * (q - h * h)
    return f


def f_lin(co):
    d = {4: 2, 8: 3}[len(co)]
    return lambda x: sum(co[k] * np.prod([x[:, i] if k >> i & 1 else 1 - x[:, i] for i in range(d)], axis=0) for k in range(len(co)))


def f_box(x):
    return np.abs(x).max(1) - 1


def f_tpms(name, m, z):
    def f(x):
        u = [2 * math.pi * m[i] * x[:, i] for i in range(len(m))]
        if len(m) == 2:
            u.append(np.full(len(x), 2 * math.pi * (z or 0.0)))
        s, c = [np.sin(t) for t in u], [np.cos(t) for t in u]
        c2 = [np.cos(2 * t) for t in u]
        if name == "Schoen":
            return s[0] * c[1] + s[1] * c[2] + s[2] * c[0]
        if name == "Schoen_IWP":
            return 2 * (c[0] * c[1] + c[1] * c[2] + c[2] * c[0]) - c2[0] - c2[1] - c2[2]
        if name == "Schoen_FRD":
            return 4 * c[0] * c[1] * c[2] - c2[0] * c2[1] - c2[1] * c2[2] - c2[2] * c2[0]
        if name == "Fischer_Koch_S":
            return c2[0] * s[1] * c[2] + c[0] * c2[1] * s[2] + s[0] * c[1] * c2[2]
        if name == "Schwarz_Diamond":
            return c[0] * c[1] * c[2] - s[0] * s[1] * s[2]
        return c[0] + c[1] + c[2]
    return f


def same(fn, want, dim, scaled=False, kink=False):
    """The function is the one expected: values, gradients, dimension."""
    need(isinstance(fn, qi.ImplicitFunc), "does not return an ImplicitFunc")
    need(fn.dim == dim, f"dimension {fn.dim} instead of {dim}")
    x = pts(dim)
    v, w = fn.eval(x), want(x)
    need(v.shape == (len(x),), f"shape of the values {v.shape}")
    k = 1.0
    if scaled:
        i = np.argmax(np.abs(w))
        k = v[i] / w[i]
        need(k > 0, "wrong sign")
    need(close(v, k * w), f"value {v[np.argmax(np.abs(v - k * w))]} instead of {(k * w)[np.argmax(np.abs(v - k * w))]} at "
         f"{x[np.argmax(np.abs(v - k * w))]}")
    g = fn.grad(x)
    need(g.shape == x.shape, f"shape of the gradients {g.shape}")
    h = 1e-5
    for d in range(dim):
        e = np.zeros(dim)
        e[d] = h
        num = (want(x + e) - want(x - e)) / (2 * h)
        ok = np.abs(k * num - g[:, d]) <= 1e-4 * (1 + np.abs(num) + np.abs(v))
        if kink:  # the derivative jumps
            ok |= np.abs(want(x + e) + want(x - e) - 2 * want(x)) > 1e-7
        need(ok.all(), f"derivative {d}: {g[~ok][:1]} instead of {num[~ok][:1]} at {x[~ok][:1]}")


def untouched(arrs):
    return [a.tobytes() for a in arrs]


def made_by(f, arrs, want, dim, name=None, attrs=(), **kw):
    before = untouched(arrs)
    r = f()
    need(untouched(arrs) == before, "the arrays given are modified")
    same(r, want, dim, **kw)
    if name is not None:
        need(type(r.cpp_object).__name__ == name, f"{type(r.cpp_object).__name__} built instead of {name}")
    for a, v in attrs:
        need(close(np.array(getattr(r.cpp_object, a)), v), f"{a} = {getattr(r.cpp_object, a)} instead of {v}")
    need(untouched(arrs) == before, "the arrays given are modified by its use")
    # the object does not depend on the arrays given
    x = pts(dim, 2)
    v = r.eval(x)
    for a in arrs:
        if a.flags.writeable:
            a[...] = 5
    gc.collect()
    need(np.array_equal(v, r.eval(x)), "the object changes with the arrays it was given")


BZ = {"default": None, "True": True, "False": False}


def bzr_calls(fn, args, kwargs):
    """(label, call, use_bzr): the flag by default, and by position when everything before it is there."""
    for bl, b in BZ.items():
        if b is None:
            yield f"bzr:{bl}", (lambda: fn(*args, **kwargs)), None
        else:
            yield f"bzr:{bl}", (lambda b=b: fn(*args, use_bzr=b, **kwargs)), b


def cls(base, bzr):
    """'<Base>Bzr' / '<Base>' / no requirement."""
    return None if bzr is None or base is None else base + ("Bzr" if bzr else "")


def add_ctor(key, fn, names, kinds, build, npos, forms=("pos", "kw")):
    """`build(kind)` -> (dict name -> value in order, arrays, want, dim, base class, attributes, extras)."""
    for kind in kinds:
        for form in forms:
            for bl in BZ:
                def run(kind=kind, form=form, bl=bl):
                    vals, arrs, want, dim, base, attrs, kw = build(kind)
                    b = BZ[bl]
                    if form == "kw":
                        a, k = (), dict(vals)
                        if b is not None:
                            k["use_bzr"] = b
                    else:
                        a, k = tuple(vals.values()), {}
                        if b is not None:
                            a, k = (a + (b,), {}) if len(vals) == npos else (a, {"use_bzr": b})
                    made_by(lambda: fn(*a, **k), arrs, want, dim, cls(base, b), attrs, **kw)
                case("construct", f"{key}/{kind}/{form}/bzr={bl}", run)


KS = tuple(KINDS)
for dim, fn, base in ((2, qi.create_disk, "Disk"), (3, qi.create_sphere, "Sphere")):
    c0 = np.array([0.25, -0.5, 0.75][:dim])
    for sc in SCAL:
        add_ctor(f"{base}/{sc}", fn, None, ("f64",), lambda kind, sc=sc, dim=dim, base=base: (
            dict(radius=SCAL[sc](0.75)), [], f_sphere(0.75, np.zeros(dim)), dim, base,
            [("radius", 0.75), ("center", np.zeros(dim))], {}), 2)

    def b(kind, dim=dim, base=base, c0=c0):
        c = KINDS[kind](c0)
        return dict(radius=1.25, center=c), [c], f_sphere(1.25, c0), dim, base, [("radius", 1.25), ("center", c0)], {}
    add_ctor(base + "/center", fn, None, KS, b, 2)


def refs(dim, kind):
    K = KINDS[kind]
    o = np.array([0.5, -0.25, 0.125][:dim])
    if dim == 2:
        ax = np.array([3.0, 4.0])
        yield "none", None, np.zeros(2), np.eye(2)
        yield "origin", cpp.create_ref_system(K(o)), o, np.eye(2)
        yield "axis", cpp.create_ref_system(K(o), K(ax)), o, basis2(ax)
        yield "axiskw", cpp.create_ref_system(axis=K(ax), origin=K(o)), o, basis2(ax)
    else:
        ax, ay = np.array([1.0, 2.0, 2.0]), np.array([-2.0, 1.0, 0.5])
        yield "none", None, np.zeros(3), np.eye(3)
        yield "origin", cpp.create_ref_system(K(o)), o, np.eye(3)
        yield "axes", cpp.create_ref_system(K(o), K(ax), K(ay)), o, basis3(ax, ay)
        yield "axeskw", cpp.create_ref_system(axis_y=K(ay), origin=K(o), axis_x=K(ax)), o, basis3(ax, ay)


for dim, fn, base in ((2, qi.create_ellipse, "Ellipse"), (3, qi.create_ellipsoid, "Ellipsoid")):
    for which in [r[0] for r in refs(dim, "f64")]:
        def b(kind, which=which, dim=dim, base=base):
            a0 = np.array([0.5, 1.5, 2.25][:dim])
            a = KINDS[kind](a0)
            _, rs, o, B = next(r for r in refs(dim, kind if kind in ("f64", "strided", "readonly", "reversed") else "f64") if r[0] == which)
            v = dict(semi_axes=a)
            if rs is not None:
                v["ref_system"] = rs
            return v, [a], f_ell(a0, o, B), dim, base, [("semi_axes", a0)], {}
        add_ctor(f"{base}/{which}", fn, None, KS, b, 2)


def zaxis_ell(kind):  # one axis is the z-axis: a solid of revolution about it
    K = KINDS[kind]
    o, ax = np.array([0.5, -0.25, 0.125]), np.array([2.0, -1.0, 2.0])
    a0 = np.array([0.75, 0.75, 1.5])

    def want(x):
        h = (x - o) @ unit(ax)
        return (((x - o)**2).sum(1) - h * h) / 0.75**2 + h * h / 1.5**2 - 1
    a = K(a0)
    return dict(semi_axes=a, ref_system=cpp.create_ref_system(np.array(o), np.array(ax))), [a], want, 3, "Ellipsoid", [], {}


add_ctor("Ellipsoid/zaxis", qi.create_ellipsoid, None, KS, zaxis_ell, 2)

for wax in (False, True):
    def b(kind, wax=wax):
        o0, a0 = np.array([0.25, 0.5, -0.75]), np.array([1.0, -2.0, 2.0]) if wax else np.array([0.0, 0.0, 1.0])
        o, a = KINDS[kind](o0), KINDS[kind](a0) if wax else None
        return (dict(radius=0.5, origin=o, axis=a), [o] + ([a] if wax else []), f_cyl(0.5, o0, a0), 3, "Cylinder",
                [("radius", 0.5), ("origin", o0)], {})
    add_ctor(f"Cylinder/axis={wax}", qi.create_cylinder, None, KS, b, 3)

for wc in (False, True):
    def b(kind, wc=wc):
        c0 = np.array([0.5, -0.25])
        c = KINDS[kind](c0)
        v = dict(inner_radius=0.5, outer_radius=np.float32(1.25))
        if wc:
            v["center"] = c
        return (v, [c] if wc else [], f_ann(0.5, 1.25, c0 if wc else 0 * c0), 2, "Annulus",
                [("inner_radius", 0.5), ("outer_radius", 1.25), ("center", c0 if wc else 0 * c0)], {})
    add_ctor(f"Annulus/center={wc}", qi.create_annulus, None, KS if wc else ("f64",), b, 3)

for wc, wa in itertools.product((False, True), repeat=2):
    def b(kind, wc=wc, wa=wa):
        c0, a0 = np.array([0.5, -0.25, 0.125]), np.array([2.0, 2.0, -1.0])
        c, a = KINDS[kind](c0), KINDS[kind](a0)
        v = dict(major_radius=np.float64(1.5), minor_radius=0.5)
        if wc or wa:
            v["center"] = c if wc else None
        if wa:
            v["axis"] = a
        return (v, ([c] if wc else []) + ([a] if wa else []), f_tor(1.5, 0.5, c0 if wc else 0 * c0, a0 if wa else [0, 0, 1]), 3, "Torus",
                [("major_radius", 1.5), ("minor_radius", 0.5), ("center", c0 if wc else 0 * c0)], {})
    add_ctor(f"Torus/center={wc}/axis={wa}", qi.create_torus, None, KS if wc or wa else ("f64",), b, 4)

for d, sc, v in itertools.product((2, 3), SCAL, (-0.75, 0.0, 2.5)):
    add_ctor(f"Constant/{d}/{sc}/{v}", qi.create_constant, None, ("f64",), lambda kind, d=d, sc=sc, v=v: (
        dict(value=SCAL[sc](v), dim=d), [], lambda x: np.full(len(x), v), d, None, [("value", v)], {}), 2)
    for bz in (True, False):
        def run(d=d, v=v, bz=bz):
            n = type(qi.create_constant(v, d, bz).cpp_object).__name__
            need(n == f"Constant{'Bzr' if bz else ''}_{d}D", f"{n} built")
        if sc == "float":
            case("construct", f"Constant/{d}/{v}/class/{bz}", run)

for dim, fn, base in ((2, qi.create_line, "Line"), (3, qi.create_plane, "Plane")):
    for wo, wn in itertools.product((False, True), repeat=2):
        def b(kind, dim=dim, base=base, wo=wo, wn=wn):
            o0, n0 = np.array([0.5, -0.25, 1.0][:dim]), np.array([1.5, -2.0, 0.5][:dim])
            o, n = KINDS[kind](o0), KINDS[kind](n0)
            e = np.eye(dim)[0]
            return (dict(origin=o if wo else None, normal=n if wn else None), ([o] if wo else []) + ([n] if wn else []),
                    f_plane(o0 if wo else 0 * o0, n0 if wn else e), dim, base, [("origin", o0 if wo else 0 * o0)], dict(scaled=True))
        add_ctor(f"{base}/origin={wo}/normal={wn}", fn, None, KS if wo or wn else ("f64",), b, 2)


def transf(dim, kind="f64"):
    """(label, native transformation, A, b) with y = A x + b."""
    K = KINDS[kind]
    o = np.array([0.5, -0.25, 0.125][:dim])
    yield "origin", lambda: cpp.create_affine_transformation(K(o)), np.eye(dim), o
    yield "scale", lambda: cpp.create_affine_transformation(K(o), 1.5), 1.5 * np.eye(dim), o
    yield "scalekw", lambda: cpp.create_affine_transformation(scale=np.float32(1.5), origin=K(o)), 1.5 * np.eye(dim), o
    if dim == 2:
        ax = np.array([3.0, 4.0])
        R = basis2(ax).T
        yield "axis", lambda: cpp.create_affine_transformation(K(o), K(ax)), R, o
        yield "scales", lambda: cpp.create_affine_transformation(K(o), K(ax), 0.5, 2.0), R @ np.diag([0.5, 2.0]), o
        yield "scaleskw", lambda: cpp.create_affine_transformation(scale_y=2.0, scale_x=0.5, axis_x=K(ax), origin=K(o)), \
            R @ np.diag([0.5, 2.0]), o
        A = np.array([[1.5, 0.25], [-0.5, 2.0]])
    else:
        ax, ay = np.array([1.0, 2.0, 2.0]), np.array([-2.0, 1.0, 0.5])
        R = basis3(ax, ay).T
        yield "axis", lambda: cpp.create_affine_transformation(K(o), K(ax), K(ay)), R, o
        yield "scales", lambda: cpp.create_affine_transformation(K(o), K(ax), K(ay), 0.5, 2.0, 1.25), R @ np.diag([0.5, 2.0, 1.25]), o
        yield "scaleskw", lambda: cpp.create_affine_transformation(
            scale_z=1.25, scale_y=2.0, scale_x=0.5, axis_y=K(ay), axis_x=K(ax), origin=K(o)), R @ np.diag([0.5, 2.0, 1.25]), o
        A = np.array([[1.5, 0.25, 0.5], [-0.5, 2.0, 0.25], [0.125, -0.25, 1.0]])
    if kind != "readonly":
        yield "coefs", lambda: cpp.create_affine_transformation(K(np.concatenate([A.ravel(), o]))), A, o


def pulled(f, A, b):
    return lambda y: f(np.linalg.solve(A, (y - b).T).T)


CO = {2: [0.5, -1.25, 0.75, 2.0], 3: [0.5, -1.25, 0.75, 2.0, -0.5, 1.0, 1.75, -2.25]}
for dim in (2, 3):
    co = CO[dim]
    for kind in ("list",) + KS:
        mk = (lambda c: list(c)) if kind == "list" else KINDS[kind]
        for form in ("pos", "kw"):
            def run(kind=kind, mk=mk, form=form, co=co, dim=dim):
                c = mk(co)
                made_by((lambda: qi.create_dim_linear(c)) if form == "pos" else (lambda: qi.create_dim_linear(coefs=c)),
                        [] if kind == "list" else [c], f_lin(co), dim, f"DimLinear_{dim}D")
                need(kind != "list" or c == co, "the list given is modified")
            case("construct", f"dim_linear/{dim}/{kind}/{form}", run)
            for lab, tr, A, bb in transf(dim):
                def run(kind=kind, mk=mk, form=form, co=co, dim=dim, tr=tr, A=A, bb=bb):
                    c, t = mk(co), tr()
                    made_by((lambda: qi.create_dim_linear(c, t)) if form == "pos" else
                            (lambda: qi.create_dim_linear(affine_trans=t, coefs=c)), [] if kind == "list" else [c],
                            pulled(f_lin(co), A, bb), dim, f"DimLinear_{dim}D")
                case("construct", f"dim_linear/{dim}/{kind}/{form}/{lab}", run)
    for k2 in ("f64", "strided", "reversed", "readonly"):
        for lab, tr, A, bb in transf(dim, k2):
            def run(tr=tr, A=A, bb=bb, dim=dim):
                made_by(lambda: qi.create_affinely_transformed_functions(qi.create_dim_linear(CO[dim]), tr()), [],
                        pulled(f_lin(CO[dim]), A, bb), dim, f"TransformedFunction_{dim}D")
            case("construct", f"transformed/{dim}/{k2}/{lab}", run)
    for lab, tr, A, bb in transf(dim):
        for gd in ("none", "nonekw", "dim", "dimkw"):
            def run(tr=tr, A=A, bb=bb, dim=dim, gd=gd):
                t = tr()
                f = {"none": lambda: qi.create_box(t), "nonekw": lambda: qi.create_box(affine_trans=t, dim=None),
                     "dim": lambda: qi.create_box(t, dim), "dimkw": lambda: qi.create_box(dim=dim, affine_trans=t)}[gd]
                made_by(f, [], pulled(f_box, A, bb), dim, f"Square_{dim}D", kink=True)
            case("construct", f"box/{dim}/{lab}/{gd}", run)
    case("construct", f"box/{dim}/dim", lambda dim=dim: made_by(lambda: qi.create_box(dim=dim), [], f_box, dim, f"Square_{dim}D", kink=True))
    case("construct", f"box/{dim}/None,dim", lambda dim=dim: made_by(lambda: qi.create_box(None, dim), [], f_box, dim, kink=True))
case("construct", "box/default", lambda: made_by(lambda: qi.create_box(), [], f_box, 2, kink=True))


# -- operations: all pairs of operands -----------------------------------------------------------
def operands(dim):
    c = np.array([0.25, -0.5, 0.75][:dim])
    sph = qi.create_disk if dim == 2 else qi.create_sphere
    pl = qi.create_line if dim == 2 else qi.create_plane
    n = np.eye(dim)[1]
    for b in (True, False):
        yield f"sphere{b}", (lambda b=b: sph(1.25, c, b)), f_sphere(1.25, c)
        yield f"plane{b}", (lambda b=b: pl(c, n, b)), f_plane(c, n)
        yield f"const{b}", (lambda b=b: qi.create_constant(0.375, dim, b)), lambda x: np.full(len(x), 0.375)
    if dim == 2:
        for b in (True, False):
            yield f"annulus{b}", (lambda b=b: qi.create_annulus(0.5, 1.25, c, b)), f_ann(0.5, 1.25, c)
    else:
        yield "cylTrue", lambda: qi.create_cylinder(0.5, c, None), f_cyl(0.5, c, [0, 0, 1])
    yield "lin", lambda: qi.create_dim_linear(CO[dim]), f_lin(CO[dim])
    yield "box", lambda: qi.create_box(dim=dim), f_box
    m = [1.0, 0.5, 0.25][:dim]
    yield "schoen", lambda: qi.create_Schoen(m), f_tpms("Schoen", m, None)


for dim in (2, 3):
    for n, mk, f in operands(dim):
        def run(mk=mk, f=f, dim=dim, n=n):
            a = mk()
            r = qi.create_negative(a)
            same(r, lambda x: -f(x), dim, kink=True)
            same(a, f, dim, kink=True)
            same(qi.create_negative(func=r), f, dim, kink=True)
            del a
            gc.collect()
            same(r, lambda x: -f(x), dim, kink=True)
        case("operation", f"{dim}/-{n}", run)
        for n2, mk2, f2 in operands(dim):
            def run(mk=mk, f=f, mk2=mk2, f2=f2, dim=dim):
                a, b = mk(), mk2()
                s, d = qi.create_functions_addition(a, b), qi.create_functions_subtraction(a, b)
                same(s, lambda x: f(x) + f2(x), dim, kink=True)
                same(d, lambda x: f(x) - f2(x), dim, kink=True)
                same(a, f, dim, kink=True)
                same(b, f2, dim, kink=True)
                del a, b
                gc.collect()
                same(qi.create_functions_subtraction(rhs_func=s, lhs_func=d), lambda x: -2 * f2(x), dim, kink=True)
            case("operation", f"{dim}/{n},{n2}", run)

TPMS = {"Schoen": "Schoen", "Schoen_IWP": "SchoenIWP", "Schoen_FRD": "SchoenFRD", "Fischer_Koch_S": "FischerKochS",
        "Schwarz_Primitive": "SchwarzPrimitive", "Schwarz_Diamond": "SchwarzDiamond"}
for t, native in TPMS.items():
    fn = getattr(qi, "create_" + t)
    for dim in (2, 3):
        m0 = [1.0, 0.5, 0.75][:dim]
        for kind in ("list",) + KS:
            for z in ("absent", "None") + (tuple(SCAL) + ("zero", "kw") if dim == 2 else ()):
                def run(fn=fn, t=t, native=native, dim=dim, m0=m0, kind=kind, z=z):
                    m = list(m0) if kind == "list" else KINDS[kind](m0)
                    zv = {"absent": None, "None": None, "zero": 0.0}.get(z, 0.375)
                    f = {"absent": lambda: fn(m), "None": lambda: fn(m, None), "kw": lambda: fn(z=0.375, periods=m),
                         "zero": lambda: fn(m, 0.0)}.get(z, (lambda: fn(m, SCAL[z](0.375))) if z in SCAL else None)
                    made_by(f, [] if kind == "list" else [m], f_tpms(t, m0, zv), dim, f"{native}_{dim}D")
                case("construct", f"{t}/{dim}/{kind}/z={z}", run)


# -- no value loses precision: values single precision cannot represent, in every position --------
def prec(kind, a):
    """The array given and the values it stands for."""
    a = np.array(a, dtype=np.float64)
    if kind in ("list", "npfloats"):
        return ([float(v) for v in a] if kind == "list" else [np.float64(v) for v in a]), a
    g = KINDS[kind](a)
    return g, np.array(g, dtype=np.float64)


def prec_case(key, kind, dim, fn, arrays, want, scal=(), attrs=lambda *v: []):
    """`fn(*scalars, *arrays)` against `want(*scalars, *values)`; scalars of each kind."""
    for sc in SCAL:
        if not scal and sc != "float":
            continue

        def run(sc=sc):
            gs = [SCAL[sc](v) for v in scal]
            vs = [float(v) for v in gs]
            ga, va = zip(*(prec(kind, a) for a in arrays)) if arrays else ((), ())
            made_by(lambda: fn(*gs, *ga), [a for a in ga if isinstance(a, np.ndarray)], want(*vs, *va), dim, attrs=attrs(*vs, *va))
        case("precision", f"{key}/{dim}/{kind}/{sc}", run)


P3, Q3, CT = [0.1, -1 / 3, 0.7], [0.3, 1.1, -0.6], [0.1 * i * (-1)**i + 1 / 7 for i in range(8)]
for kind in KS:
    for dim, fn in ((2, qi.create_disk), (3, qi.create_sphere)):
        prec_case("sphere", kind, dim, fn, [P3[:dim]], lambda r, c: f_sphere(r, c), (1.1,), lambda r, c: [("radius", r), ("center", c)])
    for dim, fn in ((2, qi.create_ellipse), (3, qi.create_ellipsoid)):
        prec_case("ellipse", kind, dim, fn, [[0.7, 1.3, 2.1][:dim]], lambda a, dim=dim: f_ell(a, np.zeros(dim), np.eye(dim)), (),
                  lambda a: [("semi_axes", a)])
    prec_case("cylinder", kind, 3, qi.create_cylinder, [P3, Q3], f_cyl, (0.6,), lambda r, o, a: [("radius", r), ("origin", o)])
    prec_case("annulus", kind, 2, qi.create_annulus, [P3[:2]], f_ann, (0.6, 1.3), lambda r, s, c: [("inner_radius", r), ("outer_radius", s)])
    prec_case("torus", kind, 3, qi.create_torus, [P3, Q3], f_tor, (1.3, 0.4), lambda r, s, c, a: [("major_radius", r), ("minor_radius", s)])
    for dim, fn in ((2, qi.create_line), (3, qi.create_plane)):
        prec_case("plane", kind, dim, lambda o, fn=fn, dim=dim: fn(o, None), [P3[:dim]],
                  lambda o, dim=dim: f_plane(o, np.eye(dim)[0]), (), lambda o: [("origin", o)])
for dim in (2, 3):
    prec_case("constant", "f64", dim, lambda v, dim=dim: qi.create_constant(v, dim), [], lambda v: lambda x: np.full(len(x), v), (0.1,),
              lambda v: [("value", v)])
    for kind in ("list", "npfloats") + KS:
        prec_case("dim_linear", kind, dim, qi.create_dim_linear, [CT[:2**dim]], f_lin)
        for t in TPMS:
            fn = getattr(qi, "create_" + t)
            prec_case(t, kind, dim, fn, [[0.7, 1.1, 1.3][:dim]], lambda m, t=t: f_tpms(t, m, None))
            if dim == 2:
                prec_case(t + "/z", kind, dim, lambda z, m, fn=fn: fn(m, z), [[0.7, 1.1]], lambda z, m, t=t: f_tpms(t, m, z), (0.3,))


# -- rejections ----------------------------------------------------------------------------------
A = np.array


def zeros(n):
    return np.zeros(n)


REJ = {}
for b in (True, False):
    for r in (0.0, -0.5, float("nan"), np.float32(-1)):
        REJ[f"disk radius {r} {b}"] = lambda r=r, b=b: qi.create_disk(r, use_bzr=b)
        REJ[f"disk radius {r} c {b}"] = lambda r=r, b=b: qi.create_disk(r, zeros(2), b)
        REJ[f"sphere radius {r} {b}"] = lambda r=r, b=b: qi.create_sphere(r, use_bzr=b)
        REJ[f"sphere radius {r} c {b}"] = lambda r=r, b=b: qi.create_sphere(r, zeros(3), b)
        REJ[f"cylinder radius {r} {b}"] = lambda r=r, b=b: qi.create_cylinder(r, zeros(3), None, b)
        REJ[f"annulus inner {r} {b}"] = lambda r=r, b=b: qi.create_annulus(r, 1.0, use_bzr=b)
        REJ[f"annulus outer {r} {b}"] = lambda r=r, b=b: qi.create_annulus(0.5, r, use_bzr=b)
        REJ[f"torus major {r} {b}"] = lambda r=r, b=b: qi.create_torus(r, 0.5, use_bzr=b)
        REJ[f"torus minor {r} {b}"] = lambda r=r, b=b: qi.create_torus(1.0, r, use_bzr=b)
    for n in (0, 1, 2, 3, 4):
        if n != 2:
            REJ[f"disk center {n} {b}"] = lambda n=n, b=b: qi.create_disk(1.0, zeros(n), b)
            REJ[f"annulus center {n} {b}"] = lambda n=n, b=b: qi.create_annulus(0.5, 1.0, zeros(n), b)
            REJ[f"ellipse axes {n} {b}"] = lambda n=n, b=b: qi.create_ellipse(np.ones(n), use_bzr=b)
            REJ[f"line origin {n} {b}"] = lambda n=n, b=b: qi.create_line(zeros(n), A([1.0, 2]), b)
            REJ[f"line origin only {n} {b}"] = lambda n=n, b=b: qi.create_line(zeros(n), None, b)
            REJ[f"line normal {n} {b}"] = lambda n=n, b=b: qi.create_line(zeros(2), np.ones(n), b)
            REJ[f"line normal only {n} {b}"] = lambda n=n, b=b: qi.create_line(None, np.ones(n), b)
        if n != 3:
            REJ[f"sphere center {n} {b}"] = lambda n=n, b=b: qi.create_sphere(1.0, zeros(n), b)
            REJ[f"ellipsoid axes {n} {b}"] = lambda n=n, b=b: qi.create_ellipsoid(np.ones(n), use_bzr=b)
            REJ[f"cylinder origin {n} {b}"] = lambda n=n, b=b: qi.create_cylinder(1.0, zeros(n), None, b)
            REJ[f"cylinder axis {n} {b}"] = lambda n=n, b=b: qi.create_cylinder(1.0, zeros(3), np.ones(n), b)
            REJ[f"torus center {n} {b}"] = lambda n=n, b=b: qi.create_torus(1.0, 0.5, zeros(n), None, b)
            REJ[f"torus axis {n} {b}"] = lambda n=n, b=b: qi.create_torus(1.0, 0.5, zeros(3), np.ones(n), b)
            REJ[f"torus axis only {n} {b}"] = lambda n=n, b=b: qi.create_torus(1.0, 0.5, None, np.ones(n), b)
            REJ[f"plane origin {n} {b}"] = lambda n=n, b=b: qi.create_plane(zeros(n), np.ones(3), b)
            REJ[f"plane origin only {n} {b}"] = lambda n=n, b=b: qi.create_plane(zeros(n), None, b)
            REJ[f"plane normal {n} {b}"] = lambda n=n, b=b: qi.create_plane(zeros(3), np.ones(n), b)
            REJ[f"plane normal only {n} {b}"] = lambda n=n, b=b: qi.create_plane(None, np.ones(n), b)
    for d in (0, 1, 4, -2):
        REJ[f"constant dim {d} {b}"] = lambda d=d, b=b: qi.create_constant(1.0, d, b)
    for k in range(3):
        for v in (0.0, -1.0, float("nan")):
            a = np.ones(3)
            a[k] = v
            REJ[f"ellipsoid axes {a} {b}"] = lambda a=a, b=b: qi.create_ellipsoid(a, use_bzr=b)
            REJ[f"ellipsoid axes {a} r {b}"] = lambda a=a, b=b: qi.create_ellipsoid(a, RS3, b)
            if k < 2:
                REJ[f"ellipse axes {a[:2]} {b}"] = lambda a=a, b=b: qi.create_ellipse(a[:2], use_bzr=b)
RS3 = cpp.create_ref_system(zeros(3))
AT2, AT3 = cpp.create_affine_transformation(zeros(2)), cpp.create_affine_transformation(zeros(3))
for n in (0, 1, 2, 3, 5, 6, 7, 9):
    REJ[f"dim_linear {n}"] = lambda n=n: qi.create_dim_linear(np.ones(n))
    REJ[f"dim_linear list {n}"] = lambda n=n: qi.create_dim_linear([1.0] * n)
REJ["dim_linear 4 3D"] = lambda: qi.create_dim_linear(np.ones(4), AT3)
REJ["dim_linear 8 2D"] = lambda: qi.create_dim_linear(np.ones(8), AT2)
for d in (0, 1, 4):
    REJ[f"box dim {d}"] = lambda d=d: qi.create_box(dim=d)
    REJ[f"box dim {d} 2D"] = lambda d=d: qi.create_box(AT2, d)
REJ["box dim 3 2D"] = lambda: qi.create_box(AT2, 3)
REJ["box dim 2 3D"] = lambda: qi.create_box(AT3, 2)
for t in TPMS:
    fn = getattr(qi, "create_" + t)
    for n in (0, 1, 4):
        REJ[f"{t} periods {n}"] = lambda fn=fn, n=n: fn(np.ones(n))
        REJ[f"{t} periods list {n}"] = lambda fn=fn, n=n: fn([1.0] * n)
    for z in (0.0, 0.5, np.float32(0.25)):
        REJ[f"{t} z {z!r}"] = lambda fn=fn, z=z: fn(np.ones(3), z)
F2, F3 = qi.create_disk(1.0), qi.create_sphere(1.0)
for a, b, n in ((F2, F3, "23"), (F3, F2, "32")):
    REJ[f"add {n}"] = lambda a=a, b=b: qi.create_functions_addition(a, b)
    REJ[f"sub {n}"] = lambda a=a, b=b: qi.create_functions_subtraction(a, b)
REJ["transformed 2D by 3D"] = lambda: qi.create_affinely_transformed_functions(F2, AT3)
REJ["transformed 3D by 2D"] = lambda: qi.create_affinely_transformed_functions(F3, AT2)
for n, f in (("2D", F2), ("3D", F3)):
    for d in (1, 2, 3, 4):
        if d != f.dim:
            REJ[f"eval {n} {d}"] = lambda f=f, d=d: f.eval(np.zeros((3, d)))
            REJ[f"grad {n} {d}"] = lambda f=f, d=d: f.grad(np.zeros((3, d)))
            REJ[f"eval f32 {n} {d}"] = lambda f=f, d=d: f.eval(np.zeros((3, d), dtype=np.float32))
for k, f in REJ.items():
    case("rejection", k, lambda f=f, k=k: rejected(f, k))


# -- evaluation ----------------------------------------------------------------------------------
def layouts(x):
    yield "c64", np.array(x, dtype=np.float64)
    yield "f64F", np.asfortranarray(x)
    yield "strided", strided(np.array(x, dtype=np.float64))
    yield "readonly", readonly(np.array(x, dtype=np.float64))
    yield "reversed", np.array(x, dtype=np.float64)[::-1].copy()[::-1]
    yield "c32", np.array(x, dtype=np.float32)
    yield "f32F", np.asfortranarray(x, dtype=np.float32)
    yield "strided32", strided(np.array(x, dtype=np.float32))
    yield "transposed", np.array(x.T, dtype=np.float64).T


for dim in (2, 3):
    for n, mk, f in operands(dim):
        for np_ in (0, 1, 2, 3, 7):
            for lay in [x[0] for x in layouts(np.zeros((1, dim)))]:
                def run(mk=mk, f=f, dim=dim, np_=np_, lay=lay):
                    x0 = pts(dim)[::3][:np_].astype(np.float32).astype(float)
                    x = dict(layouts(x0))[lay]
                    before = x.tobytes()
                    fn = mk()
                    v, g = fn.eval(x), fn.grad(x)
                    need(v.dtype == x.dtype and g.dtype == x.dtype, f"types {v.dtype}, {g.dtype} for points of {x.dtype}")
                    need(v.shape == (np_,) and g.shape == (np_, dim), f"shapes {v.shape}, {g.shape}")
                    tol = 1e-9 if x.dtype == np.float64 else 1e-6
                    if np_:
                        need(close(v, f(x0), tol), f"values {v} instead of {f(x0)}")
                        need(close(g, fn.grad(np.array(x0)), tol), "gradients depend on the layout of the points")
                    need(x.tobytes() == before, "the points are modified")
                    w, h = v.copy(), g.copy()
                    del fn
                    gc.collect()
                    junk = [np.full(64, 3.0) for _ in range(20)]
                    need(np.array_equal(w, v) and np.array_equal(h, g) and junk, "the results do not outlive the function")
                    v[...] = 0
                    kw = mk()
                    need(close(kw.eval(points=x), w, tol), "evaluation by keyword")
                case("evaluation", f"{dim}/{n}/{np_}/{lay}", run)


# -- boxes, grids, quadratures of the native module ------------------------------------------------
def alive(get, owner):
    """The array does not change, nor is it released, when its owner goes away."""
    o = owner()
    a = get(o)
    w = np.array(a)
    del o
    gc.collect()
    junk = [np.full(n, -9.0) for n in (2, 3, 4, 6, 8, 64) for _ in range(50)]
    need(np.array_equal(w, a) and junk, f"{w} becomes {np.array(a)} once its owner is released")
    return w


for dim in (2, 3):
    lo, hi = [0.1, -1.7, 1 / 3][:dim], [1.7, 0.6, 4.3][:dim]
    for kind in ("list", "tuple") + KS:
        if kind in ("f32", "f32strided"):
            continue
        mk = {"list": list, "tuple": tuple}.get(kind) or KINDS[kind]
        for form in ("pos", "kw"):
            def run(dim=dim, lo=lo, hi=hi, mk=mk, form=form):
                def box():
                    return cpp.create_bound_box(mk(lo), mk(hi)) if form == "pos" else cpp.create_bound_box(max_corner=mk(hi), min_corner=mk(lo))
                b = box()
                for n, w in (("min_corner", lo), ("max_corner", hi), ("mid_point", (A(lo) + A(hi)) / 2)):
                    need(close(alive(lambda o: getattr(o, n), box), w), f"{n} = {getattr(b, n)} instead of {w}")
                need(close(alive(lambda o: o.as_array(), box), A([lo, hi]).T), f"as_array() = {b.as_array()}")
                need(close(b.volume, np.prod(A(hi) - A(lo))), f"volume {b.volume}")
                for d in range(dim):
                    need(close(b.length(d), hi[d] - lo[d]), f"length({d}) = {b.length(d)}")
            case("native", f"box/{dim}/{kind}/{form}", run)

    def check_grid(mk, br, dim=dim):
        n = [len(b) - 1 for b in br]
        g = mk()
        need(g.dim == dim and list(g.num_cells_dir) == n, f"cells per direction {g.num_cells_dir} instead of {n}")
        alive(lambda o: o.num_cells_dir, mk)
        need(close(g.domain.as_array(), [[b[0], b[-1]] for b in br]), f"domain {g.domain.as_array()}")
        for d in range(dim):
            need(close(alive(lambda o: o.cell_breaks[d], mk), br[d]), f"breaks {d}: {g.cell_breaks[d]}")
        for c in range(int(np.prod(n))):
            idx = np.unravel_index(c, n, order="F")
            need(close(g.get_cell_domain(c).as_array(), [[br[d][i], br[d][i + 1]] for d, i in enumerate(idx)]), f"domain of cell {c}")
        for f in range(2 * dim):
            w = [c for c in range(int(np.prod(n))) if np.unravel_index(c, n, order="F")[f // 2] == (0 if f % 2 == 0 else n[f // 2] - 1)]
            got = alive(lambda o: o.get_boundary_cells(f), mk)
            need(list(got) == w, f"cells of face {f}: {got} instead of {w}")
        dom = alive(lambda o: o.domain.as_array(), mk)
        need(close(dom, [[b[0], b[-1]] for b in br]), "domain")

    for n in itertools.product((1, 2, 3), repeat=dim):
        br = [np.linspace(lo[d], hi[d], n[d] + 1) for d in range(dim)]
        un = [b + 0.0625 * (np.arange(len(b)) % 2) for b in br]
        for nk in ("list", "array", "i64"):
            def run(n=n, br=br, nk=nk, dim=dim, lo=lo, hi=hi, cg=check_grid):
                nn = {"list": list(n), "array": tuple(n), "i64": [np.int64(i) for i in n]}[nk]
                cg(lambda: cpp.create_cart_grid(cpp.create_bound_box(lo, hi), nn), br)
            case("native", f"grid/{dim}/{n}/bbox/{nk}", run)
        case("native", f"grid/{dim}/{n}/kw", lambda n=n, br=br, lo=lo, hi=hi, cg=check_grid: cg(
            lambda: cpp.create_cart_grid(n_cells_dir=list(n), bound_box=cpp.create_bound_box(lo, hi)), br))
        for kind in ("list",) + tuple(k for k in KS if "32" not in k):
            def run(un=un, kind=kind, cg=check_grid):
                mk = (lambda b: [float(x) for x in b]) if kind == "list" else KINDS[kind]
                cg(lambda: cpp.create_cart_grid([mk(b) for b in un]), un)
                cg(lambda: cpp.create_cart_grid(breaks=[mk(b) for b in un]), un)
            case("native", f"grid/{dim}/{n}/breaks/{kind}", run)

for dim in (1, 2, 3):
    for n in itertools.product((1, 2, 3, 5), repeat=dim):
        def run(n=n, dim=dim):
            q = cpp.create_Gauss_quad_01(list(n))
            x, w = alive(lambda o: o.points, lambda: cpp.create_Gauss_quad_01(n_pts_dir=list(n))), np.array(q.weights)
            alive(lambda o: o.weights, lambda: cpp.create_Gauss_quad_01(list(n)))
            gl = [np.polynomial.legendre.leggauss(k) for k in n]
            want = sorted((tuple(0.5 + 0.5 * gl[d][0][i] for d, i in enumerate(ii)), float(np.prod([0.5 * gl[d][1][i] for d, i in enumerate(ii)])))
                          for ii in np.ndindex(*n))
            got = sorted((tuple(p), float(v)) for p, v in zip(x, w))
            need(x.shape == (int(np.prod(n)), dim) and close(np.array([g[0] + (g[1],) for g in got]), np.array([g[0] + (g[1],) for g in want])),
                 "points or weights")
        case("native", f"gauss/{n}", run)
    for bad in (0, -1):
        pass


# -- domains: planes and discs, whose parts of cells and facets are known ---------------------------
def clip(poly, n, c):
    """Part of the polygon where n.x < c."""
    out = []
    for p, q in zip(poly, poly[1:] + poly[:1]):
        a, b = np.dot(n, p) - c, np.dot(n, q) - c
        if a <= 0:
            out.append(p)
        if a * b < 0:
            out.append(tuple(np.array(p) + (np.array(q) - np.array(p)) * a / (a - b)))
    return out


def area(poly):
    return 0.0 if len(poly) < 3 else 0.5 * abs(sum(p[0] * q[1] - p[1] * q[0] for p, q in zip(poly, poly[1:] + poly[:1])))


class Plane:
    """n.x < c on a grid of the unit box."""

    def __init__(self, n, c, cells, bzr=True):
        self.n, self.c, self.cells, self.dim = np.array(n, float), c, cells, len(n)
        self.bzr = bzr

    def func(self):
        o = self.n * self.c / (self.n @ self.n)
        return (qi.create_line if self.dim == 2 else qi.create_plane)(o, self.n, self.bzr)

    def box(self, c):
        i = np.array(np.unravel_index(c, self.cells, order="F"))
        return i / A(self.cells), (i + 1) / A(self.cells)

    def corners(self, c):
        a, b = self.box(c)
        return np.array(list(itertools.product(*zip(a, b))))

    def cell(self, c):
        v = self.corners(c) @ self.n - self.c
        return "full" if v.max() <= 1e-12 else "empty" if v.min() >= -1e-12 else "cut"

    def facet_pts(self, c, f):
        a, b = self.box(c)
        d, s = divmod(f, 2)
        p = self.corners(c)
        return p[np.abs(p[:, d] - (b if s else a)[d]) < 1e-12]

    def facet(self, c, f):
        v = self.facet_pts(c, f) @ self.n - self.c
        if np.abs(v).max() < 1e-12:
            return "on"
        return "full" if v.max() <= 1e-12 else "empty" if v.min() >= -1e-12 else "cut"

    def frac(self, pts):
        """Fraction of the box with these corners where n.x < c."""
        a, b = pts.min(0), pts.max(0)
        act = [d for d in range(self.dim) if b[d] - a[d] > 1e-12]
        n, c = self.n[act] * (b - a)[act], self.c - a @ self.n
        # fraction of the unit box of the active directions with n.x < c: inclusion-exclusion
        fl = n < 0
        c = c - n[fl].sum()
        n = np.abs(n)
        n = n[n > 1e-14]
        if len(n) == 0:
            return float(c > 0)
        k = len(n)
        tot = sum((-1)**sum(v) * max(0.0, c - np.dot(v, n))**k for v in itertools.product((0, 1), repeat=k))
        return tot / (math.factorial(k) * np.prod(n))

    def length(self, c):
        """Measure of the boundary in the cell, in the cell's own unit box."""
        a, b = self.box(c)
        n, cc = self.n * (b - a), self.c - a @ self.n
        h = 1e-6
        # derivative of the volume with respect to c (exact: piecewise polynomial)
        sh = Plane(n, cc, [1] * self.dim)
        p = np.array(list(itertools.product((0.0, 1.0), repeat=self.dim)))

        def vol(t):
            sh.c = t
            return sh.frac(p)
        return (vol(cc + h) - vol(cc - h)) / (2 * h) * np.linalg.norm(n)


GEN = [Plane((1.0, 0.375), 0.6875, (3, 2)), Plane((-0.5, 1.0), 0.1875, (2, 3)), Plane((1.0, 1.0), 0.8125, (4, 4), False),
       Plane((1.0, 0.25, 0.5), 0.84375, (2, 2, 2)), Plane((-1.0, 0.5, 0.25), -0.15625, (2, 1, 3), False)]
if T:
    GEN += [Plane((math.cos(t), math.sin(t)), 0.5 * (math.cos(t) + math.sin(t)) + 0.13 * math.sin(5 * t), (5, 4)) for t in (0.3, 1.2, 2.1, 3.3, 4.2, 5.9)]
    GEN += [Plane((1.0, -0.75, 0.3), 0.21, (3, 3, 2)), Plane((0.2, 0.3, 1.0), 0.71, (2, 3, 3))]


def native(P):
    g = cpp.create_cart_grid(cpp.create_bound_box([0.0] * P.dim, [1.0] * P.dim), list(P.cells))
    return cpp.create_unfitted_impl_domain(P.func().cpp_object, g)


def subsets(ids):
    ids = list(ids)
    yield "all", ids
    yield "odd", ids[1::2]
    yield "one", ids[len(ids) // 2:len(ids) // 2 + 1]
    yield "none", []
    yield "rev", ids[::-1]


IDK = {"i64": lambda a: np.array(a, dtype=np.int64), "i32": lambda a: np.array(a, dtype=np.int32),
       "strided": lambda a: strided(np.array(a, dtype=np.int64)), "readonly": lambda a: readonly(np.array(a, dtype=np.int64)),
       "reversed": lambda a: np.array(a, dtype=np.int64)[::-1].copy()[::-1]}
FIDK = {"i64": np.int64, "i32": np.int32, "strided": np.int32, "readonly": np.int32, "reversed": np.int32}
for pi, P in enumerate(GEN):
    nc = int(np.prod(P.cells))
    for k in ("full", "cut", "empty"):
        want = [c for c in range(nc) if P.cell(c) == k]

        def run(P=P, k=k, want=want, nc=nc):
            d = native(P)
            need(d.dim == P.dim and d.num_total_cells == nc and not d.has_facets_with_unf_bdry, "attributes")
            need(list(d.grid.num_cells_dir) == list(P.cells), "grid")
            q = getattr(d, f"get_{k}_cells")
            for got in (q(), q(None), q(target_cell_ids=None)):
                need(got.dtype == np.int64 and sorted(got) == want, f"{k} cells {sorted(got)} instead of {want}")
            need(sorted(alive(lambda o: getattr(o, f"get_{k}_cells")(), lambda: native(P))) == want, "cells change")
        case("domain", f"{pi}/cells/{k}/all", run)
        for sl, s in subsets(range(nc)):
            for ik in IDK:
                def run(P=P, k=k, s=s, ik=ik, want=want):
                    d = native(P)
                    t = IDK[ik](s)
                    b = t.tobytes()
                    for got in (getattr(d, f"get_{k}_cells")(t), getattr(d, f"get_{k}_cells")(target_cell_ids=t)):
                        need(sorted(got) == sorted(c for c in s if c in want), f"{k} cells among {s}: {sorted(got)}")
                    need(t.tobytes() == b, "the array given is modified")
                case("domain", f"{pi}/cells/{k}/{sl}/{ik}", run)
    allf = [(c, f) for c in range(nc) for f in range(2 * P.dim)]
    for k in ("full", "cut", "empty", "unf_bdry", "full_unf_bdry"):
        want = [] if "unf" in k else [p for p in allf if P.facet(*p) == k]

        def run(P=P, k=k, want=want):
            d = native(P)
            q = getattr(d, f"get_{k}_facets")
            for got in (q(), q(None, None), q(target_local_facet_ids=None, target_cell_ids=None)):
                need(len(got) == 2 and got[0].dtype == np.int64 and got[1].dtype == np.int32, "types")
                need(sorted(zip(*map(list, got))) == want, f"{k} facets {sorted(zip(*map(list, got)))} instead of {want}")
            a = q()
            w = [np.array(x) for x in a]
            del d, q
            gc.collect()
            junk = [np.full(64, -9) for _ in range(100)]
            need(all(np.array_equal(x, y) for x, y in zip(a, w)) and junk, "the arrays do not outlive the domain")
        case("domain", f"{pi}/facets/{k}/all", run)
        for sl, s in subsets(allf):
            for ik in IDK:
                def run(P=P, k=k, s=s, ik=ik, want=want):
                    d = native(P)
                    tc = IDK[ik]([p[0] for p in s])
                    tf = IDK[ik]([p[1] for p in s]).astype(FIDK[ik]) if ik != "strided" else strided(np.array([p[1] for p in s], dtype=np.int32))
                    b = tc.tobytes(), tf.tobytes()
                    q = getattr(d, f"get_{k}_facets")
                    for got in (q(tc, tf), q(target_local_facet_ids=tf, target_cell_ids=tc)):
                        got = sorted(zip(*map(list, got)))
                        need(got == sorted(p for p in s if p in want), f"{k} facets: {got}")
                    need((tc.tobytes(), tf.tobytes()) == b, "the arrays given are modified")
                case("domain", f"{pi}/facets/{k}/{sl}/{ik}", run)
    # domains on some of the cells
    for sl, s in subsets(range(nc)):
        for ik in tuple(IDK) + ("list",):
            if sl in ("none", "rev"):
                continue

            def run(P=P, s=s, ik=ik):
                g = cpp.create_cart_grid(cpp.create_bound_box([0.0] * P.dim, [1.0] * P.dim), list(P.cells))
                cs = list(s) if ik == "list" else IDK[ik](s)
                f = P.func().cpp_object
                for d in (cpp.create_unfitted_impl_domain(f, g, cs), cpp.create_unfitted_impl_domain(cells=cs, grid=g, impl_func=f)):
                    for k in ("full", "cut", "empty"):
                        got = sorted(getattr(d, f"get_{k}_cells")())
                        # whole sub-grids are classified at once, cells that were not given included
                        need([c for c in got if c in s] == sorted(c for c in s if P.cell(c) == k), f"{k} cells of the domain on {s}: {got}")
                        need(all(P.cell(c) == k for c in got), f"{k} cells of the domain on {s}: {got}")
                        need(k != "cut" or all(c in s for c in got), f"cut cells of the domain on {s}: {got}")
                del g, f
                gc.collect()
                need(d.grid.dim == P.dim and d.impl_func.dim == P.dim, "function and grid")
                need(sorted(d.get_cut_cells()) == sorted(c for c in s if P.cell(c) == "cut"), "the domain does not keep its function")
            case("domain", f"{pi}/on/{sl}/{ik}", run)
    # quadratures straight from the native module
    for ik in IDK:
        for npd in (1, 2, 4):
            def run(P=P, ik=ik, npd=npd, nc=nc):
                d = native(P)
                ids = list(range(nc))[::-1]
                c = IDK[ik](ids)
                q = cpp.create_quadrature(d, c, npd)
                q2 = cpp.create_quadrature(n_pts_dir=npd, cells=c, unf_domain=d)
                need(list(q.cells) == ids, "cells")
                need(np.array_equal(q.points, q2.points) and np.array_equal(q.weights, q2.weights), "by keyword")
                w, o = np.array(q.weights), 0
                need(q.points.shape == (len(w), P.dim) and sum(q.n_pts_per_entity) == len(w), "sizes")
                for c_, n in zip(ids, q.n_pts_per_entity):
                    want = P.frac(P.corners(c_))
                    need(P.cell(c_) != "full" or n == npd**P.dim, f"cell {c_}: {n} points")
                    need(P.cell(c_) != "empty" or n == 0, f"cell {c_}: {n} points")
                    need(close(w[o:o + n].sum(), want, 1e-7 if npd >= P.dim else 1), f"cell {c_}: {w[o:o + n].sum()} instead of {want}")
                    x = P.box(c_)[0] + np.array(q.points)[o:o + n] / A(P.cells)
                    need((x @ P.n - P.c < 1e-9).all(), f"cell {c_}: points out of the domain")
                    o += n
                for at in ("points", "weights", "cells", "n_pts_per_entity"):
                    alive(lambda o: getattr(o, at), lambda: cpp.create_quadrature(native(P), np.arange(nc), npd))
            case("quadrature", f"{pi}/cells/{ik}/{npd}", run)

            def run(P=P, ik=ik, npd=npd, nc=nc):
                d = native(P)
                al = [(c, f) for c in range(nc) for f in range(2 * P.dim)][::-1]
                tc = IDK[ik]([p[0] for p in al])
                tf = strided(np.array([p[1] for p in al], dtype=np.int32)) if ik == "strided" else IDK[ik]([p[1] for p in al]).astype(FIDK[ik])
                for nm in ("exterior", "interior"):
                    fn = getattr(cpp, f"create_facets_quadrature_{nm}_integral")
                    q, q2 = fn(d, tc, tf, npd), fn(n_pts_dir=npd, facets=tf, cells=tc, unf_domain=d)
                    need([(int(a), int(b)) for a, b in zip(q.cells, q.facets)] == al, "facets")
                    w, o = np.array(q.weights), 0
                    need(q.points.shape == (len(w), P.dim - 1) and sum(q.n_pts_per_entity) == len(w), "sizes")
                    need(np.array_equal(q.points, q2.points) and np.array_equal(q.weights, q2.weights), "by keyword")
                    for (c_, f_), n in zip(al, q.n_pts_per_entity):
                        i, (dd, s) = np.unravel_index(c_, P.cells, order="F"), divmod(f_, 2)
                        ext = i[dd] == (P.cells[dd] - 1 if s else 0)
                        if nm == "exterior" and not ext:
                            continue  # only parts of the boundary on it, if any
                        if nm == "interior" and ext:
                            continue
                        want = P.frac(P.facet_pts(c_, f_))
                        got = w[o:o + n].sum() if False else w[sum(q.n_pts_per_entity[:al.index((c_, f_))]):][:n].sum()
                        need(close(got, want, 1e-7 if npd >= P.dim - 1 else 1), f"{nm} facet {c_, f_}: {got} instead of {want}")
                    for at in ("points", "weights", "cells", "facets", "n_pts_per_entity"):
                        alive(lambda o: getattr(o, at), lambda: fn(native(P), tc, tf, npd))
            case("quadrature", f"{pi}/facets/{ik}/{npd}", run)

            def run(P=P, ik=ik, npd=npd, nc=nc):
                d = native(P)
                ids = list(range(nc))
                for fl in itertools.product((False, True), repeat=2):
                    q = cpp.create_unfitted_bound_quadrature(d, IDK[ik](ids), npd, *fl)
                    w, o = np.array(q.weights), 0
                    need(list(q.cells) == ids and q.points.shape == q.normals.shape == (len(w), P.dim), "sizes")
                    h = 1 / A(P.cells)
                    nr = P.n * h / np.linalg.norm(P.n * h)
                    for c_, n in zip(ids, q.n_pts_per_entity):
                        need(P.cell(c_) == "cut" or n == 0, f"cell {c_} has {n} points")
                        if P.cell(c_) == "cut":
                            x = P.box(c_)[0] + np.array(q.points)[o:o + n] * h
                            need(np.abs(x @ P.n - P.c).max() < 1e-8, f"cell {c_}: points off the boundary")
                            need(close(q.normals[o:o + n], np.tile(nr, (n, 1)), 1e-7), f"cell {c_}: normals {q.normals[o]} instead of {nr}")
                            need(close(w[o:o + n].sum(), P.length(c_), 1e-5 if npd >= P.dim else 1), f"cell {c_}: {w[o:o + n].sum()} instead of {P.length(c_)}")
                        o += n
                    for at in ("points", "weights", "cells", "normals", "n_pts_per_entity"):
                        alive(lambda o: getattr(o, at), lambda: cpp.create_unfitted_bound_quadrature(native(P), IDK[ik](ids), npd, *fl))
            case("quadrature", f"{pi}/boundary/{ik}/{npd}", run)

# roles of the flags of unfitted boundaries: along an interior grid line, along the boundary of the mesh, and elsewhere
for dim in (2, 3):
    for d in range(dim):
        for sgn in (1.0, -1.0):
            for where, c in (("line", 0.5), ("mesh", 1.0 if sgn > 0 else 0.0), ("inside", 0.375)):
                def run(dim=dim, d=d, sgn=sgn, where=where, c=c):
                    n = np.zeros(dim)
                    n[d] = sgn
                    P = Plane(n, sgn * c, (2,) * dim)
                    dom = native(P)
                    nc = 2**dim
                    inside = {"line": [k for k in range(nc) if np.unravel_index(k, P.cells, order="F")[d] == (0 if sgn > 0 else 1)],
                              "mesh": [k for k in range(nc) if np.unravel_index(k, P.cells, order="F")[d] == (1 if sgn > 0 else 0)],
                              "inside": [k for k in range(nc) if np.unravel_index(k, P.cells, order="F")[d] == 0]}[where]
                    need(bool(dom.has_facets_with_unf_bdry) == (where != "inside"), "has_facets_with_unf_bdry")
                    f = 2 * d + (1 if sgn > 0 else 0)
                    for nm in ("unf_bdry", "full_unf_bdry"):
                        got = sorted(zip(*map(list, getattr(dom, f"get_{nm}_facets")())))
                        need(got == (sorted((k, f) for k in inside) if where != "inside" else []), f"{nm} facets {got}")
                    for inc, exc in itertools.product((False, True), repeat=2):
                        for q in (cpp.create_unfitted_bound_quadrature(dom, np.arange(nc), 2, inc, exc), cpp.create_unfitted_bound_quadrature(
                                exclude_ext_bdry=exc, include_facet_unf_bdry=inc, n_pts_dir=2, cells=np.arange(nc), unf_domain=dom)):
                            has = where == "inside" or (inc and not (exc and where == "mesh"))
                            tot = np.array([np.array(q.weights)[o:o + n].sum() for o, n in zip(
                                np.cumsum([0] + list(q.n_pts_per_entity))[:-1], q.n_pts_per_entity)])
                            want = np.array([1.0 if has and k in inside else 0.0 for k in range(nc)])
                            need(close(tot, want, 1e-7), f"include_facet_unf_bdry={inc}, exclude_ext_bdry={exc}: {tot} instead of {want}")
                    if where != "inside":
                        cc, ff = np.array(inside, dtype=np.int64), np.full(len(inside), f, dtype=np.int32)
                        e = cpp.create_facets_quadrature_exterior_integral(dom, cc, ff, 2)
                        i = cpp.create_facets_quadrature_interior_integral(dom, cc, ff, 2)
                        need(close(np.sum(e.weights), len(inside), 1e-7), f"exterior integrals over the boundary: {np.sum(e.weights)}")
                        need(where == "mesh" or len(i.weights) == 0, f"interior integrals over the boundary: {np.sum(i.weights)}")
                case("flags", f"{dim}/{d}/{sgn}/{where}", run)


# -- unfitted meshes ---------------------------------------------------------------------------------
def comm():
    from mpi4py import MPI
    return MPI.Comm()


def umesh(P, **k):
    return qm.create_unfitted_impl_Cartesian_mesh(comm(), P.func(), list(P.cells), **k)


NC = {"list": list, "tuple": tuple, "i32": lambda n: np.array(n, dtype=np.int32), "i64": lambda n: np.array(n), "li32": lambda n: [np.int32(i) for i in n]}
for dim in (2, 3):
    n = (3, 2, 2)[:dim]
    c0 = np.array([0.5] * dim)

    def fn(dim=dim, c0=c0):
        return (qi.create_disk if dim == 2 else qi.create_sphere)(0.375, c0)

    def mesh_case(mk, n, lo, hi, dt, degree=1, dim=dim, c0=c0):
        worlds.use({})
        m = mk()
        br = [np.linspace(lo[d], hi[d], n[d] + 1) for d in range(dim)]
        need(m.geometry.x.dtype == dt, f"coordinates of type {m.geometry.x.dtype} instead of {np.dtype(dt)}")
        need(list(m.num_cells_dir) == list(n), f"cells per direction {m.num_cells_dir}")
        for d in range(dim):
            need(m.cell_breaks[d].dtype == dt and close(m.cell_breaks[d], br[d], 1e-6), f"breaks {m.cell_breaks[d]} instead of {br[d]}")
            need(close(m.cart_grid_tp_cpp_object.cell_breaks[d], br[d], 1e-6), "breaks of the native grid")
        need(m.degree == degree, f"degree {m.degree}")
        # classes of the cells: distances of the centre of the ball to the cell
        cls_ = {}
        for c in range(int(np.prod(n))):
            i = np.unravel_index(c, n, order="F")
            a, b = A([br[d][i[d]] for d in range(dim)]), A([br[d][i[d] + 1] for d in range(dim)])
            mn, mx = np.linalg.norm(np.maximum(0, np.maximum(a - c0, c0 - b))), np.linalg.norm(np.maximum(np.abs(a - c0), np.abs(b - c0)))
            cls_[c] = "full" if mx < 0.375 else "empty" if mn >= 0.375 else "cut"
        return m, cls_

    for nk in NC:
        for lk in ("absent", "None", "f32", "f64", "min", "max", "min32", "max32"):
            for dk in (None, np.float32, np.float64):
                def run(dim=dim, n=n, nk=nk, lk=lk, dk=dk, fn=fn, mc=mesh_case):
                    lo, hi = np.array([0.25, -0.5, 0.0][:dim]), np.array([1.25, 1.5, 0.75][:dim])
                    arr, k = {"absent": ({}, None), "None": (dict(xmin=None, xmax=None), None), "f32": (dict(xmin=lo.astype(np.float32), xmax=hi.astype(np.float32)), np.float32),
                              "f64": (dict(xmin=lo, xmax=hi), np.float64), "min": (dict(xmin=lo), np.float64), "max": (dict(xmax=hi), np.float64),
                              "min32": (dict(xmin=lo.astype(np.float32)), np.float32), "max32": (dict(xmax=hi.astype(np.float32)), np.float32)}[lk]
                    if dk is not None:
                        arr = dict(arr, dtype=dk)
                    mk = lambda: qm.create_unfitted_impl_Cartesian_mesh(comm(), fn(), NC[nk](n), **arr)  # noqa: E731
                    if dk is not None and k is not None and dk != k:
                        made.clear()
                        try:
                            f0 = fn()
                            made.clear()
                            qm.create_unfitted_impl_Cartesian_mesh(comm(), f0, NC[nk](n), **arr)
                        except ValueError:
                            need(not made, f"rejected only after {made} came back")
                            return
                        raise Bad("coordinates of another type accepted")
                    keep = [a.tobytes() for a in arr.values() if isinstance(a, np.ndarray)]
                    zl, zh = lo if arr.get("xmin") is not None else 0 * lo, hi if arr.get("xmax") is not None else 1 + 0 * hi
                    m, cl = mc(mk, n, zl, zh, dk or k or np.float64)
                    need(keep == [a.tobytes() for a in arr.values() if isinstance(a, np.ndarray)], "the arrays given are modified")
                    act = [c for c in cl if cl[c] != "empty"]
                    for q, w in ((m.get_full_cells, "full"), (m.get_cut_cells, "cut"), (m.get_empty_cells, "empty")):
                        got = sorted(int(m.get_original_cell_ids(np.array([c], dtype=np.int32))[0]) for c in q())
                        want = [c for c in act if cl[c] == w]
                        need(got == want, f"{w} cells {got} instead of {want}")
                    need(m.num_local_cells == len(act), f"{m.num_local_cells} cells in the mesh instead of {len(act)}")
                case("mesh", f"{dim}/{nk}/{lk}/{dk and dk.__name__}", run)
    for i, deg, exc, pos in itertools.product((1, 2, 3), (1, 2, 3), (None, True, False), (False, True)):
        def run(dim=dim, i=i, deg=deg, exc=exc, pos=pos, fn=fn, mc=mesh_case):
            k = {} if exc is None else dict(exclude_empty_cells=exc)
            if pos:
                mk = lambda: qm.create_unfitted_impl_Cartesian_mesh(comm(), fn(), i, None, None, deg, *k.values())  # noqa: E731
            else:
                mk = lambda: qm.create_unfitted_impl_Cartesian_mesh(comm=comm(), impl_func=fn(), n_cells=i, degree=deg, **k)  # noqa: E731
            m, cl = mc(mk, [i] * dim, [0] * dim, [1] * dim, np.float64, deg)
            act = [c for c in cl if cl[c] != "empty" or exc is False]
            need(m.num_local_cells == len(act), f"{m.num_local_cells} cells in the mesh instead of {len(act)}")
            for q, w in ((m.get_full_cells, "full"), (m.get_cut_cells, "cut"), (m.get_empty_cells, "empty")):
                got = sorted(int(c) for c in m.get_original_cell_ids(q()))
                need(got == [c for c in act if cl[c] == w], f"{w} cells {got}")
            need(m.cpp_unf_domain_object.dim == dim and m.unf_domain if hasattr(m, "unf_domain") else True, "domain")
        case("mesh", f"{dim}/int{i}/degree{deg}/exclude={exc}/{pos}", run)
    for gm in ("none", "shared_facet"):
        def run(dim=dim, gm=gm, fn=fn):
            mode = getattr(fakedlf.GhostMode, gm)
            fakedlf.calls.clear()
            worlds.use({})
            two = comm()
            two.size = 2
            qm.create_unfitted_impl_Cartesian_mesh(two, fn(), 2, ghost_mode=mode)
            p = fakedlf.calls[-1]["partitioner"]
            need(isinstance(p, tuple) and p[1] is mode, f"ghost mode {p} instead of {mode}")
        case("mesh", f"{dim}/ghost={gm}", run)
    bad = {"n size": dict(n_cells=[2] * (dim + 1)), "n short": dict(n_cells=[2] * (dim - 1)), "xmin size": dict(n_cells=2, xmin=zeros(dim + 1)),
           "xmax size": dict(n_cells=2, xmax=np.ones(dim - 1)), "equal": dict(n_cells=2, xmin=zeros(dim), xmax=np.eye(dim)[0]),
           "reversed": dict(n_cells=2, xmin=np.ones(dim), xmax=zeros(dim)), "default xmax": dict(n_cells=2, xmin=np.full(dim, 1.5)),
           "default xmin": dict(n_cells=2, xmax=np.full(dim, -0.5)), "types": dict(n_cells=2, xmin=zeros(dim), xmax=np.ones(dim, dtype=np.float32))}
    for k, v in bad.items():
        def run(v=v, k=k, fn=fn):
            f = fn()
            worlds.use({})
            rejected(lambda: qm.create_unfitted_impl_Cartesian_mesh(comm(), f, **v), k)
        case("rejection", f"mesh {dim} {k}", run)

MW = {"id": {}, "mix": dict(cell_perm=worlds.mix, node_perm=worlds.rev, facet_perm=worlds.mix)}
for pi, P in enumerate(GEN[:5] if not T else GEN):
    for wn, w in MW.items():
        for exc in (True, False):
            for deg in (0, 1, 2, 3, 5):
                def run(P=P, w=w, exc=exc, deg=deg):
                    worlds.use(w)
                    m = umesh(P, exclude_empty_cells=exc)
                    npd = max(1, math.ceil((deg + 1) / 2))
                    need(m.get_num_Gauss_points(deg) == npd, "points per direction")
                    cells = np.arange(m.num_local_cells, dtype=np.int32)[::-1].copy()
                    keep = cells.tobytes()
                    orig = [int(c) for c in m.get_original_cell_ids(cells)]
                    tol = 1e-7
                    for q in (m.create_quad_custom_cells(deg, cells), m.create_quad_custom_cells(cells=cells, degree=deg)):
                        wt, o = np.array(q.weights), 0
                        need(np.array_equal(q.cells, cells) and q.points.shape == (len(wt), P.dim) and len(q.n_pts_per_entity) == len(cells), "sizes")
                        for c, n in zip(orig, q.n_pts_per_entity):
                            k = P.cell(c)
                            need(k != "full" or n == npd**P.dim, f"{n} points in a full cell for degree {deg}")
                            need(k != "empty" or n == 0, f"{n} points in an empty cell")
                            need(npd < P.dim or close(wt[o:o + n].sum(), P.frac(P.corners(c)), tol), f"cell {c}: {wt[o:o + n].sum()} instead of {P.frac(P.corners(c))}")
                            x = P.box(c)[0] + np.array(q.points)[o:o + n] / A(P.cells)
                            need((x @ P.n < P.c + 1e-9).all(), "points out of the domain")
                            o += n
                    for q in (m.create_quad_unf_boundaries(deg, cells), m.create_quad_unf_boundaries(cells=cells, degree=deg)):
                        wt, o = np.array(q.weights), 0
                        need(np.array_equal(q.cells, cells) and q.points.shape == q.normals.shape == (len(wt), P.dim), "sizes")
                        h = 1 / A(P.cells)
                        for c, n in zip(orig, q.n_pts_per_entity):
                            if P.cell(c) != "cut":
                                need(n == 0, f"{n} points of the boundary in a cell without")
                                continue
                            x = P.box(c)[0] + np.array(q.points)[o:o + n] * h
                            need(n > 0 and np.abs(x @ P.n - P.c).max() < 1e-8, "points off the boundary")
                            need(npd < P.dim or close(wt[o:o + n].sum(), P.length(c), 1e-5), f"cell {c}: length {wt[o:o + n].sum()} instead of {P.length(c)}")
                            nr = P.n * h / np.linalg.norm(P.n * h)
                            need(close(q.normals[o:o + n], np.tile(nr, (n, 1)), 1e-7), "normals")
                            o += n
                    need(cells.tobytes() == keep, "the cells given are modified")
                    for ext in (True, False):
                        for which in ("cut", "full", "empty"):
                            fs = getattr(m, f"get_{which}_facets")(ext)
                            of = fs.to_original(m)
                            q = m.create_quad_custom_facets(deg, fs, ext)
                            wt, o = np.array(q.weights), 0
                            need(q.points.shape == (len(wt), P.dim - 1) and len(q.n_pts_per_entity) == len(of.cell_ids), "sizes")
                            need(np.array_equal(q.facets.cell_ids, fs.cell_ids) and np.array_equal(q.facets.local_facet_ids, fs.local_facet_ids), "facets")
                            for c, f, n in zip(of.cell_ids, of.local_facet_ids, q.n_pts_per_entity):
                                c, f = int(c), int(f)
                                i, (d, s) = np.unravel_index(c, P.cells, order="F"), divmod(f, 2)
                                bd = i[d] == (P.cells[d] - 1 if s else 0)
                                if ext and not bd:
                                    continue  # side of the mesh that is not of the grid
                                need(P.facet(c, f) == which, f"facet {c, f} is {P.facet(c, f)}, not {which}")
                                need(which != "full" or n == npd**(P.dim - 1), f"{n} points in a full facet")
                                need(which != "empty" or n == 0, f"{n} points in an empty facet")
                                got = wt[o:o + n].sum()
                                need(npd < P.dim - 1 or close(got, P.frac(P.facet_pts(c, f)), tol), f"facet {c, f}: {got} instead of {P.frac(P.facet_pts(c, f))}")
                                o += n
                            if ext:
                                o = 0
                case("mesh quadrature", f"{pi}/{wn}/exclude={exc}/degree{deg}", run)


# -- reparameterisations -----------------------------------------------------------------------------
mesh_calls = []


def rec_create_mesh(comm_, cells, e, x, partitioner=None, *a, **k):
    mesh_calls.append(dict(comm=comm_, cells=np.array(cells), e=e, x=np.array(x), partitioner=partitioner))
    return ("mesh", len(mesh_calls))


import dolfinx.mesh as dlm  # noqa: E402

dlm.create_mesh = rec_create_mesh
import basix  # noqa: E402


def lagr(deg, nodes, x):
    """Lagrange basis in 1D at x."""
    return np.array([np.prod([(x - nodes[j]) / (nodes[i] - nodes[j]) for j in range(len(nodes)) if j != i], axis=0) for i in range(len(nodes))]).T


for pi, P in enumerate(GEN[:5] if not T else GEN):
    for deg, ls, form in itertools.product((None, 1, 2, 3) + ((4,) if T else ()), (None, False, True), ("pos", "kw")):
        if P.dim == 3 and deg == 3 and form == "kw" and not T:
            continue

        def run(P=P, deg=deg, ls=ls, form=form):
            worlds.use({})
            m = umesh(P, exclude_empty_cells=False)
            if form == "pos":
                a = () if deg is None else (deg,) + (() if ls is None else (ls,))
                k = {} if deg is not None or ls is None else dict(levelset=ls)
            else:
                a, k = (), {kk: v for kk, v in (("levelset", ls), ("degree", deg)) if v is not None}
            r = qr.create_reparam_mesh(m, *a, **k)
            dg, dm = deg or 3, P.dim - (1 if ls else 0)
            o = r.cpp_object
            need(r.unf_domain is m, "unf_domain")
            need(o.dim == dm and o.range == P.dim and o.order == dg + 1, f"dim {o.dim}, range {o.range}, order {o.order} for degree {dg}")
            need(o.cells_conn.shape[1] == (dg + 1)**dm and o.wirebasket_conn.shape[1] == dg + 1, "shapes of the connectivities")
            n = int(np.prod(P.cells))
            for at in ("points", "cells_conn", "wirebasket_conn"):
                alive(lambda o: getattr(o, at), lambda: qr.create_reparam_mesh(m, *a, **k).cpp_object)
            p = np.array(o.points)
            need(p.shape[1] == P.dim and (p > -1e-9).all() and (p < 1 + 1e-9).all(), "points out of the grid")
            f = p @ P.n - P.c
            used = np.unique(o.cells_conn)
            need((np.abs(f[used]) if ls else f[used]).max() < 1e-8, "points out of the domain")
            # the measure of the mesh
            x, w = np.polynomial.legendre.leggauss(dg + 1)
            x, w = 0.5 + 0.5 * x, 0.5 * w
            nodes = (0.5 - 0.5 * np.cos(np.pi * (2 * np.arange(dg + 1) + 1) / (2 * dg + 2))) if o.chebyshev else np.linspace(0, 1, dg + 1)
            if o.chebyshev:
                nodes = None
            tot = None
            if nodes is not None:
                L, h = lagr(dg, nodes, x), 1e-6
                D = (lagr(dg, nodes, x + h) - lagr(dg, nodes, x - h)) / (2 * h)
                tot = 0.0
                for cn in o.cells_conn:
                    q = p[cn]
                    J = []
                    for d in range(dm):
                        M = np.ones((1, 1))
                        for e in range(dm):
                            M = np.kron(D if e == d else L, M)
                        J.append(M @ q)
                    J = np.array(J)
                    det = np.sqrt(np.maximum(0, np.array([np.linalg.det(J[:, i] @ J[:, i].T) for i in range(J.shape[1])])))
                    W = np.ones(1)
                    for _ in range(dm):
                        W = np.kron(w, W)
                    tot += (det * W).sum()
                if ls:
                    want = sum(P.length(c) for c in range(n) if P.cell(c) == "cut") if len(set(P.cells)) == 1 else None
                    want = None if want is None else want / P.cells[0]**(P.dim - 1)
                else:
                    want = sum(P.frac(P.corners(c)) for c in range(n)) / n
                need(want is None or close(tot, want, 1e-5), f"measure {tot} instead of {want}")
            # the DOLFINx meshes
            for wb in ("default", False, True, "kw"):
                mesh_calls.clear()
                res = r.create_mesh() if wb == "default" else r.create_mesh(wirebasket=True) if wb == "kw" else r.create_mesh(wb)
                need(len(mesh_calls) == 1 and res == ("mesh", 1), "create_mesh of DOLFINx not called once")
                c = mesh_calls[0]
                one = wb in (True, "kw")
                cn, td = (o.wirebasket_conn, 1) if one else (o.cells_conn, dm)
                need(np.array_equal(c["x"], p) and c["comm"] is m.comm, "points or communicator")
                el = c["e"].ufl_coordinate_element()
                ct = [None, basix.CellType.interval, basix.CellType.quadrilateral, basix.CellType.hexahedron][td]
                need(el.cell_type == ct and el.degree == dg and tuple(el.shape) == (P.dim,), f"element {el.cell_type}, {el.degree}, {el.shape}")
                need(el.dtype == np.float64 and c["cells"].dtype == np.int64 and c["cells"].shape == cn.shape, "types or shapes")
                # node of the element -> lexicographical position
                xs = basix.create_element(basix.ElementFamily.P, ct, dg, basix.LagrangeVariant.equispaced).points
                lex = np.rint(xs * dg).astype(int) @ (dg + 1)**np.arange(td)
                need(np.array_equal(c["cells"], np.array(cn)[:, lex].astype(np.int64)), "order of the nodes of the cells")
        case("reparam", f"{pi}/degree={deg}/levelset={ls}/{form}", run)
    # restricted to some cells, natively
    for ik in IDK:
        for sl, s in subsets(range(int(np.prod(P.cells)))):
            def run(P=P, ik=ik, s=s):
                d = native(P)
                for nm, ls in (("create_reparameterization", False), ("create_reparameterization_levelset", True)):
                    fn = getattr(cpp, nm)
                    r = fn(d, IDK[ik](s), 2, False)
                    r2 = fn(merge_points=False, n_pts_dir=2, cells=IDK[ik](s), unf_domain=d)
                    need(np.array_equal(r.points, r2.points) and np.array_equal(r.cells_conn, r2.cells_conn), "by keyword")
                    need(r.order == 2 and r.dim == P.dim - ls and r.range == P.dim, "dimensions")
                    got = set()
                    for cn in r.cells_conn:
                        q = np.array(r.points)[cn].mean(0) * A(P.cells)
                        got.add(int(np.ravel_multi_index(tuple(np.minimum(np.floor(q).astype(int), A(P.cells) - 1)), P.cells, order="F")))
                    want = {c for c in s if P.cell(c) == "cut" or (P.cell(c) == "full" and not ls)}
                    need(got == want, f"{nm} for the cells {s}: pieces in {sorted(got)} instead of {sorted(want)}")
            case("reparam", f"{pi}/cells/{sl}/{ik}", run)
for dg in (0, -1):
    for ls in (False, True):
        def run(dg=dg, ls=ls):
            worlds.use({})
            m = umesh(GEN[0])
            rejected(lambda: qr.create_reparam_mesh(m, dg, ls), f"degree {dg}")
        case("rejection", f"reparam degree {dg} {ls}", run)

idata = []


def rec_idata(V_to, V_from, cells, padding=None):
    idata.append((V_to, V_from, np.array(cells), padding))
    return "ownership"


import qugar.reparam.reparam as _rr  # noqa: E402

if hasattr(_rr, "dlf_create_interpolation_data"):
    _rr.dlf_create_interpolation_data = rec_idata
    for own, gh, td in itertools.product((0, 1, 4), (0, 2), (1, 2, 3)):
        for pad in (None, 1e-3):
            def run(own=own, gh=gh, td=td, pad=pad):
                class V:
                    def __init__(self, o, g, t):
                        im = {t: fakedlf.IndexMap(o, g, o + g, 0), t - 1: fakedlf.IndexMap(77, 5, 90, 0)}
                        self.mesh = type("M", (), {})()
                        self.mesh.topology = type("T", (), {"dim": t, "index_map": lambda s, d: im[d]})()
                to, fr = V(own, gh, td), V(9, 1, 3)
                idata.clear()
                c, data = qr.create_interpolation_data(to, fr) if pad is None else qr.create_interpolation_data(V_from=fr, V_to=to, padding=pad)
                need(data == "ownership" and len(idata) == 1, "result of DOLFINx")
                a, b, cc, p = idata[0]
                need(a is to and b is fr, "spaces")
                need(c.dtype == np.int32 and list(c) == list(cc) == list(range(own + gh)), f"cells {c}")
                need(p == (1e-14 if pad is None else pad), f"padding {p}")
            case("interpolation", f"{own}/{gh}/{td}/{pad}", run)


# -- partitioners that leave every cell where it is ---------------------------------------------------
def partition_case(td, n, rank, size):
    import types
    import qugar.reparam.reparam as rr
    g = types.SimpleNamespace(AdjacencyList_int32=lambda a: ("dest", a), AdjacencyList_int64=fakedlf.AdjacencyList)
    old, rr.dlf_cpp = rr.dlf_cpp, types.SimpleNamespace(graph=g)
    try:
        ct = [rr.dlf_mesh.CellType.interval, rr.dlf_mesh.CellType.quadrilateral, rr.dlf_mesh.CellType.hexahedron][td - 1]
        cells = np.arange(n * 2**td, dtype=np.int64)
        r = rr.identity_partitioner(types.SimpleNamespace(rank=rank, size=size), size, [ct], [cells])
    finally:
        rr.dlf_cpp = old
    need(r[0] == "dest" and r[1].dtype == np.int32 and r[1].tolist() == [rank] * n, f"destinations {r[1]} of {n} cells of rank {rank}")
    need(np.array_equal(cells, np.arange(n * 2**td)), "the cells given are modified")


for td_, n_, (rank_, size_) in itertools.product((1, 2, 3), (0, 1, 2, 5), ((0, 1), (0, 2), (1, 2), (2, 3))):
    case("partition", f"{td_}/{n_}/{rank_}of{size_}", lambda t=td_, n=n_, r=rank_, s=size_: partition_case(t, n, r, s))


# -- the patch of DOLFINx's assemble_scalar -----------------------------------------------------------
def patch_case(version, given, twice):
    import importlib
    import dolfinx
    import dolfinx.cpp.fem
    import dolfinx.fem
    import dolfinx.fem.assemble as am
    calls = []

    def original(M, constants=None, coeffs=None):
        """doc"""
        return "original"
    am.assemble_scalar = dolfinx.fem.assemble_scalar = original
    am.pack_constants = lambda M: ("constants of", M)
    am.pack_coefficients = lambda M: ("coefficients of", M)

    def native_(form, constants, coeffs):
        calls.append((form, constants, coeffs))
        return 42.0
    dolfinx.cpp.fem.assemble_scalar = native_
    dolfinx.__version__ = version
    if "qugar.dolfinx" not in sys.modules:
        autostub.bare_packages("qugar.dolfinx")
    p = importlib.import_module("qugar.dolfinx._dolfinx_patches")
    for _ in range(2 if twice else 1):
        p.apply_patches()
    if not version.startswith("0.10."):
        need(am.assemble_scalar is original and dolfinx.fem.assemble_scalar is original, "patched although it has no such defect")
        return
    M = type("Form", (), {"_cpp_object": "cpp form"})()
    co, ce = ("my constants" if "c" in given else None), ("my coefficients" if "f" in given else None)
    for fn in (am.assemble_scalar, dolfinx.fem.assemble_scalar):
        for r in (fn(M, co, ce), fn(M, coeffs=ce, constants=co)):
            need(r == 42.0, f"result {r}")
        need(calls and all(c == ("cpp form", co or ("constants of", M), ce or ("coefficients of", M)) for c in calls), f"passed on: {calls}")
        calls.clear()
    if not given:
        need(dolfinx.fem.assemble_scalar(M) == 42.0, "without arguments")


for v, g, t in itertools.product(("0.10.0", "0.10.1", "0.11.0", "1.0.0"), ("", "c", "f", "cf"), (False, True)):
    case("patch", f"{v}/{g}/{t}", lambda v=v, g=g, t=t: patch_case(v, g, t))


def with_assertions():
    need(not no_asserts, f"the module cannot be built with assertions: {no_asserts and no_asserts[-400:]}")


case("build", "assertions", with_assertions)

# -- run ---------------------------------------------------------------------------------------------
keys = [k for _, k, _ in CASES]
assert len(set(keys)) == len(keys), [k for k in keys if keys.count(k) > 1][:3]
if vf.ONLY:
    CASES = [c for c in CASES if c[1] == vf.ONLY]


def work(i, at):
    kind, key, fn = CASES[i]
    at(key)
    msg = None
    try:
        fn()
    except Bad as e:
        msg = str(e)
    except Exception as e:  # noqa: BLE001
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        msg = f"unexpected {type(e).__name__}: {e} at {tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}"
    yield ("case", kind, key, msg)


for r in pool.run(len(CASES), work, tick=chk.at):
    if r[0] == "crash":
        chk.case("crash", r[1])
        chk.fail(r[1], r[2])
    else:
        chk.case(r[1], r[2])
        if r[3]:
            chk.fail(r[2], r[3])
chk.finish()
