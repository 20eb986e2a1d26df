"""C22: LinearProblem and NonlinearProblem over a small exact linear algebra: every history of solves,
assemblies, changes of the data and of the boundary conditions, for problems living side by side."""
import enum
import gc
import importlib
import inspect
import itertools
import sys
import types

import numpy as np

import autostub
import fakedlf
import fakeufl
import vf

autostub.install()
fakedlf.overlay()
fakeufl.overlay()
import dolfinx.cpp.fem as cpp_fem  # noqa: E402

cpp_fem._IntegralType = cpp_fem.IntegralType = enum.Enum("IT", "cell exterior_facet interior_facet vertex ridge")
import dolfinx  # noqa: E402
import dolfinx.fem  # noqa: E402
import dolfinx.fem.forms as dff  # noqa: E402
import dolfinx.fem.function as dfn  # noqa: E402
import dolfinx.fem.petsc as dfp  # noqa: E402
import ufl  # noqa: E402

dff.Form = dolfinx.fem.Form = type("Form", (), {})
dolfinx.has_petsc4py = True

chk = vf.Check(
    "C22", "exploration",
    "one case = one history (word over: solve or assemble one of two problems, change of the coefficients, of the values of the "
    "boundary conditions, of the unknown) for one configuration of boundary conditions, ghosts, unknown and options, or one failure "
    "at one step of a construction; every word up to the bound (one operation more for one configuration of nonlinear problems). Non-trivial: at least two operations, or a failure",
    ["PETSc and DOLFINx' assemblers are stand-ins that compute exactly, with ghosts, matrices that need assembly and options with "
     "prefixes, as documented by DOLFINx 0.10: contributions to ghosts are kept apart until they are sent to their owners",
     "single (not nested) forms; those of lists of forms are in C04"])

N = 3


# ---------------------------------------------------------------- linear algebra
class Enum_:
    ADD, INSERT, REVERSE, FORWARD = "add", "insert", "reverse", "forward"
    ADD_VALUES, INSERT_VALUES, SCATTER_REVERSE, SCATTER_FORWARD = ADD, INSERT, REVERSE, FORWARD


GHOSTS = ()
faults = [None, 0]  # step at which a construction fails, number of the present step


class Fault(Exception):
    pass


def step():
    faults[1] += 1
    if faults[0] == faults[1]:
        raise Fault(f"step {faults[1]}")


class Obj:
    def setOptionsPrefix(self, p):
        self.prefix = p

    def getOptionsPrefix(self):
        return getattr(self, "prefix", "")

    def setFromOptions(self):
        self.options = {k[len(self.getOptionsPrefix()):]: v for k, v in Options.db.items() if k.startswith(self.getOptionsPrefix())}

    def destroy(self):
        self.destroyed = True


class Local:
    def __init__(self, a):
        self.array = self.array_w = self.array_r = a

    def set(self, v):
        self.array[:] = v

    def zeroEntries(self):
        self.array[:] = 0

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class Vec(Obj):
    def __init__(self, local=None):
        self.local = np.full(N + len(GHOSTS), 0.0) if local is None else local
        self.g = GHOSTS

    def localForm(self):
        return Local(self.local)

    def set(self, v):
        self.local[:N] = v

    def zeroEntries(self):
        self.local[:N] = 0

    array = array_w = array_r = property(lambda s: s.local[:N], lambda s, v: s.local.__setitem__(slice(0, N), v))

    def getArray(self):
        return self.local[:N]

    def ghostUpdate(self, addv=Enum_.INSERT, mode=Enum_.FORWARD):
        for i, o in enumerate(self.g):
            if mode == Enum_.REVERSE:
                self.local[o] = self.local[N + i] + (self.local[o] if addv == Enum_.ADD else 0)
            else:
                self.local[N + i] = self.local[o] + (self.local[N + i] if addv == Enum_.ADD else 0)

    def ghostUpdateBegin(self, addv=Enum_.INSERT, mode=Enum_.FORWARD):
        self.ghostUpdate(addv, mode)

    def ghostUpdateEnd(self, addv=Enum_.INSERT, mode=Enum_.FORWARD):
        pass


class Mat(Obj):
    def __init__(self):
        self.value, self.pending, self.assembled = np.zeros((N, N)), np.zeros((N, N)), False

    def zeroEntries(self):
        self.value[:], self.pending[:] = 0, 0

    def assemble(self, *a):
        self.value += self.pending
        self.pending[:] = 0
        self.assembled = True

    def assemblyBegin(self, *a):
        pass

    assemblyEnd = assemble


class Options:
    db, stack = {}, []

    def __init__(self, prefix=""):
        self.p = prefix or ""

    def prefixPush(self, p):
        Options.stack.append(p)

    def prefixPop(self):
        Options.stack.pop()

    def __setitem__(self, k, v):
        Options.db["".join(Options.stack) + self.p + k] = v

    setValue = __setitem__

    def __delitem__(self, k):
        del Options.db["".join(Options.stack) + self.p + k]

    delValue = __delitem__


class KSP(Obj):
    def create(self, comm=None):
        step()
        self.comm = comm
        return self

    def setOperators(self, A, P=None):
        step()
        self.A = A

    def solve(self, b, x):
        if not self.A.assembled or self.A.pending.any():
            raise RuntimeError("the matrix has not been assembled")
        x.local[:N] = np.linalg.solve(self.A.value, b.local[:N])


PETSc = types.SimpleNamespace(ScalarType=np.float64, KSP=KSP, Options=Options, InsertMode=Enum_, ScatterMode=Enum_, Vec=Vec, Mat=Mat)
PETSc.InsertMode = PETSc.ScatterMode = Enum_


class LaVec:
    def __init__(self):
        self.array = np.zeros(N + len(GHOSTS))
        self.g = GHOSTS
        self.petsc_vec = Vec(self.array)

    def scatter_forward(self):
        for i, o in enumerate(self.g):
            self.array[N + i] = self.array[o]


class Space:
    def __init__(self, name):
        self.name, self.mesh = name, types.SimpleNamespace(comm=("communicator of", name))


class Function:
    def __init__(self, V, *a, **k):
        step()
        self.function_space, self.x = V, LaVec()
        self.x.array[:] = 7.0

    ufl_function_space = property(lambda s: lambda: s.function_space)


class BC:
    def __init__(self, dofs, scale):
        self.dofs, self.scale = list(dofs), scale

    def value(self):
        return np.array([self.scale * (1 + world.g) + d for d in self.dofs])

    def set(self, array, x0=None, alpha=1.0):
        x = 0 if x0 is None else np.asarray(x0)[self.dofs]
        array[self.dofs] = alpha * (self.value() - x)

    def dof_indices(self):
        return self.dofs, len(self.dofs)


class World:
    """What the coefficients and the values of the boundary conditions are now."""

    def __init__(self):
        self.p, self.g = 0, 0


world = World()
K = np.array([[4.0, 1.0, 0.5], [-1.0, 5.0, 0.25], [0.75, 2.0, 6.0]])
M = np.array([[1.0, 0.0, 2.0], [0.5, 1.0, 0.0], [0.0, -0.5, 1.0]])


class Ufl:
    """A form: what it is made of is read when coefficients are packed."""

    def __init__(self, rank, k, u=None, spaces=()):
        self.rank, self.k, self.u, self.spaces = rank, k, u, spaces

    def arguments(self):
        return [types.SimpleNamespace(ufl_function_space=lambda s=s: s) for s in self.spaces]

    def pack(self):
        return self.k, world.p, None if self.u is None else self.u.x.array[:N].copy()

    def tensor(self, data):
        k, p, u = data
        A = K + (0.25 * p + k) * M
        f = np.array([1.0, 2.0, -1.0]) * (1 + p) + k
        if self.u is None:
            return A if self.rank == 2 else f
        return A + np.diag(3 * 0.1 * u**2) if self.rank == 2 else A @ u + 0.1 * u**3 - f


def assembled(form, coeffs):
    if not isinstance(form, CF):
        raise TypeError(f"assembly of {type(form).__name__}")
    if coeffs is None:
        return np.full((N,) * form.ufl.rank, np.nan)  # without the data of the quadratures
    if coeffs.get("form") is not form:
        raise ValueError("coefficients of another form")
    return form.ufl.tensor(coeffs["data"])


def to_local(b, v):
    """Half of what belongs to an entry with a ghost goes to the ghost."""
    for i, o in enumerate(b.g):
        b.local[N + i] += v[o] / 2
        v = v.copy()
        v[o] /= 2
    b.local[:N] += v


def assemble_matrix(A, a, bcs=None, diag=1, constants=None, coeffs=None):
    T = np.array(assembled(a, coeffs))
    for bc in bcs or []:
        T[bc.dofs, :] = 0
        T[:, bc.dofs] = 0
    for bc in bcs or []:
        T[bc.dofs, bc.dofs] = diag
    A.pending += T
    return A


def assemble_vector(b, L, constants=None, coeffs=None):
    to_local(b, assembled(L, coeffs))
    return b


def apply_lifting(b, a, bcs, x0=None, alpha=1, constants=None, coeffs=None):
    if not len(a) == len(bcs) == len(coeffs if coeffs is not None else a) == len(x0 if x0 is not None else a):
        raise ValueError("lists of different lengths")
    for i, (form, bc) in enumerate(zip(a, bcs)):
        T = assembled(form, None if coeffs is None else coeffs[i])
        d = np.zeros(N)
        for c in bc:
            d[c.dofs] = c.value() - (0 if x0 is None else x0[i].array_r[c.dofs])
        to_local(b, -alpha * (T @ d))


def set_bc(b, bcs, x0=None, alpha=1):
    for bc in bcs:
        bc.set(b.array_w, None if x0 is None else x0.array_r, alpha)


def create_matrix(a, *k):
    step()
    return Mat()


def create_vector(V, *k):
    step()
    return Vec()


def wrap(x, *k):
    step()
    v = Vec(x.array)
    return v


class BaseLinear:
    u = property(lambda s: s._u)
    A = property(lambda s: s._A)
    b = property(lambda s: s._b)
    solver = property(lambda s: s._solver)
    a = property(lambda s: s._a)
    L = property(lambda s: s._L)

    def __del__(self):
        for o in filter(lambda o: o is not None, (self._solver, self._A, self._b, self._x, self._P_mat)):
            o.destroy()


for n in ("assemble_matrix", "assemble_vector", "apply_lifting", "set_bc", "create_matrix", "create_vector"):
    setattr(dfp, n, globals()[n])
dfp.LinearProblem = BaseLinear
dfp.NewtonSolverNonlinearProblem = type("NewtonSolverNonlinearProblem", (), {
    "a": property(lambda s: s._a), "L": property(lambda s: s._L),
    "form": lambda s, x: x.ghostUpdate(addv=Enum_.INSERT, mode=Enum_.FORWARD)})
dfn.Function = dolfinx.fem.Function = Function
importlib.import_module("dolfinx.la.petsc").create_vector_wrap = wrap
importlib.import_module("petsc4py").PETSc = PETSc
dolfinx.fem.extract_function_spaces = lambda *a, **k: None
import qugar.dolfinx as QDX  # noqa: E402
import qugar.dolfinx.forms as QF  # noqa: E402

SIG = inspect.signature(QF.form_custom)


class CF(QF.CustomForm):
    def __init__(self, form):
        self.ufl = form

    def pack_coefficients(self):
        return {"form": self, "data": self.ufl.pack()}

    def update_coefficients(self, old):
        if old.get("form") is not self:
            raise ValueError("update of the coefficients of another form")
        old["data"] = self.ufl.pack()
        return old


compiled = []


def form_custom(*a, **k):
    step()
    args = SIG.bind(*a, **k)
    args.apply_defaults()
    f = CF(args.arguments["form"])
    compiled.append(args.arguments)
    return f


class Derivative(Ufl):
    pass


def derivative(F, u, du=None, *a, **k):
    if du is not None and not (isinstance(du, tuple) and du == ("trial", u.function_space)):
        raise ValueError("direction of the derivative")
    return Derivative(F.rank + 1, F.k, u, F.spaces)


ufl.derivative = derivative
ufl.TrialFunction = lambda V, *a: ("trial", V)
QDX.form_custom = QF.form_custom = form_custom
PT = importlib.reload(importlib.import_module("qugar.dolfinx.petsc"))

BCS = {"none": [], "one": [([1], 2.0)], "two": [([0], 1.5), ([2], -3.0)], "both": [([0, 2], 0.5)], "all": [([0, 1, 2], 1.0)]}
close = lambda a, b: np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-10, atol=1e-10)  # noqa: E731
unraisable = []
sys.unraisablehook = lambda u: unraisable.append(u)


def constrained(A, bcs):
    A = A.copy()
    for bc in bcs:
        A[bc.dofs, :] = 0
        A[:, bc.dofs] = 0
    for bc in bcs:
        A[bc.dofs, bc.dofs] = 1
    return A


def solution(A, f, bcs):
    """The system solved with the constrained entries eliminated."""
    u = np.zeros(N)
    free = [i for i in range(N) if not any(i in bc.dofs for bc in bcs)]
    for bc in bcs:
        u[bc.dofs] = bc.value()
    if free:
        u[free] = np.linalg.solve(A[np.ix_(free, free)], (f - A @ u)[free])
    return u


def options_of(fco, jo, w, n):
    for c in compiled[-n:]:
        chk.check(c["dtype"] is PETSc.ScalarType and c.get("form_compiler_options") == fco and c.get("jit_options") == jo, w,
                  f"form compiled with {({k: v for k, v in c.items() if k != 'form'})}")


OPTS = (None, {}, {"ksp_type": "preonly", "pc_type": "lu"})
# ---------------------------------------------------------------- linear problems
DEPTH = 5 if vf.THOROUGH else 4
LIN = [w for n in range(1, DEPTH + 1) for w in itertools.product("STcg", repeat=n) if w[-1] in "ST"]
steps_done = 0
for gh, bn, own_u, io in itertools.product(((), (1,), (0, 2)), BCS, (False, True), range(len(OPTS))):
    for word in LIN if io == 2 or vf.THOROUGH else LIN[:14]:
        w = f"linear:{gh}:{bn}:{'given' if own_u else 'new'}:{io}:{''.join(word)}"
        if not chk.want(w):
            continue
        chk.case("linear problems", w, len(word) > 1)
        GHOSTS, faults[0] = gh, None
        world.p = world.g = 0
        Options.db.clear()
        Options.stack.clear()
        probs = []
        for k in range(2):
            V, W = Space(f"V{k}"), Space(f"W{k}")
            bcs = [BC(d, s + k) for d, s in BCS[bn]]
            fa, fl = Ufl(2, k, None, (W, V)), Ufl(1, k, None, (W,))
            u = Function(V) if own_u else None
            opts = None if OPTS[io] is None else {**OPTS[io], **({"ksp_rtol": k} if OPTS[io] else {})}
            fco, jo = ({"a": k}, {"b": k}) if io else (None, None)
            kw = {} if u is None else {"u": u}
            if io:
                kw.update(petsc_options=opts, form_compiler_options=fco, jit_options=jo)
            if bcs or io:
                kw["bcs"] = bcs
            ok, pb = chk.guard(w, lambda: PT.LinearProblem(fa, fl, **kw))
            if not ok:
                break
            options_of(fco, jo, w, 2)
            chk.check(not Options.stack, w, "prefixes of options left behind")
            chk.check(pb.u.function_space is V and (u is None or pb.u is u), w, "the unknown is of another space, or another one")
            chk.check(pb.solver.comm == V.mesh.comm, w, f"solver of {pb.solver.comm}")
            probs.append((pb, bcs, fa, fl, opts or {}))
        if len(probs) < 2:
            continue
        for p in probs:
            for o in (p[0].solver, p[0].A, p[0].b):
                chk.check(getattr(o, "options", None) == p[4], w, f"options of the {type(o).__name__}: {getattr(o, 'options', None)}")
        want = [None, None]
        for op in word:
            steps_done += 1
            if op == "c":
                world.p += 1
            elif op == "g":
                world.g += 1
            else:
                k = "ST".index(op)
                pb, bcs, fa, fl, _ = probs[k]
                ok, r = chk.guard(w, pb.solve)
                if not ok:
                    break
                want[k] = solution(fa.tensor(fa.pack()), fl.tensor(fl.pack()), bcs)
                chk.check(r is pb.u, w, "another unknown is returned")
            for (pb, *_), x in zip(probs, want):
                if x is not None:
                    chk.check(close(pb.u.x.array, np.concatenate([x, x[list(gh)]])), w,
                              f"solution {pb.u.x.array} instead of {x} (ghosts of {list(gh)})")
        del probs, pb
gc.collect()
chk.check(not unraisable, "destruction of linear problems", f"{[str(u.exc_value) for u in unraisable]}")

# a failure at each step of the construction
for own_u in (False, True):
    for at in range(1, 12):
        w = f"failure:{own_u}:{at}"
        if not chk.want(w):
            continue
        GHOSTS = ()
        V = Space("V")
        faults[0] = None
        u = Function(V) if own_u else None
        faults[:] = [at, 0]
        unraisable.clear()
        try:
            pb = PT.LinearProblem(Ufl(2, 0, None, (V, V)), Ufl(1, 0, None, (V,)), u=u)
            failed = None
        except Exception as e:  # noqa: BLE001
            failed, e.__traceback__ = e, None
        reached = faults[1] >= at
        faults[0] = None
        pb = None
        gc.collect()
        chk.case("failure", w, reached)
        chk.check((type(failed) is Fault) == reached and (reached or failed is None), w, f"failure at step {at}: {failed!r}")
        chk.check(not unraisable, w, f"destruction of a problem that could not be built: {[str(x.exc_value) for x in unraisable]}")

# ---------------------------------------------------------------- nonlinear problems
LONG = 5 if vf.THOROUGH else 4
NL = [w for n in range(1, LONG + 1) for w in itertools.product("FJfjcgxn", repeat=n) if w[-1] in "FJfjn"]
for gh, bn, given in itertools.product(((), (1,), (0, 2)), BCS, (False, True)):
    for wi, word in enumerate(NL):
        if len(word) == LONG and (gh, bn, given) != ((0, 2), "two", True):
            continue
        w = f"newton:{gh}:{bn}:{'J' if given else 'derivative'}:{''.join(word)}"
        if not chk.want(w):
            continue
        chk.case("nonlinear problems", w, len(word) > 1)
        GHOSTS, faults[0] = gh, None
        world.p = world.g = 0
        probs = []
        for k in range(2):
            V = Space(f"V{k}")
            bcs = [BC(d, s + k) for d, s in BCS[bn]]
            u = Function(V)
            u.x.array[:N] = [0.5 - k, 1.0, -0.25]
            u.x.scatter_forward()
            fF = Ufl(1, k, u, (V,))
            fJ = Ufl(2, k, u, (V, V)) if given else None
            fco, jo = ({"a": k}, {"b": k}) if wi % 2 else (None, None)
            kw = {} if not wi % 2 else {"form_compiler_options": fco, "jit_options": jo}
            if bcs or wi % 3 == 0:
                kw["bcs"] = bcs
            if given:
                kw["J"] = fJ
            ok, pb = chk.guard(w, lambda: PT.NonlinearProblem(fF, u, **kw))
            if not ok:
                break
            options_of(fco, jo, w, 2)
            probs.append((pb, bcs, u, wrap(u.x), Vec(), Mat(), fF, Ufl(2, k, u)))
        if len(probs) < 2:
            continue
        for op in word:
            steps_done += 1
            if op in "cg":
                setattr(world, {"c": "p", "g": "g"}[op], getattr(world, {"c": "p", "g": "g"}[op]) + 1)
                continue
            if op == "x":
                for q in probs:
                    q[2].x.array[:N] += [0.25, -0.5, 1.0]
                    q[2].x.scatter_forward()
                continue
            pb, bcs, u, x, b, A, fF, fJ = probs[op in "fj"]
            bad = False
            before = u.x.array.copy()
            for o in "FJ" if op == "n" else op.upper():
                T = fJ.tensor(fJ.pack())
                if o == "F":
                    if not chk.guard(w, pb.F, x, b)[0]:
                        bad = True
                        break
                    r = fF.tensor(fF.pack())
                    d = np.zeros(N)
                    for bc in bcs:
                        d[bc.dofs] = bc.value() - x.local[bc.dofs]
                    r = r + T @ d
                    for bc in bcs:
                        r[bc.dofs] = -d[bc.dofs]
                    bad = bad or not chk.check(close(b.local[:N], r), w, f"residual {b.local[:N]} instead of {r}")
                else:
                    if not chk.guard(w, pb.J, x, A)[0]:
                        bad = True
                        break
                    bad = bad or not chk.check(A.assembled and not A.pending.any() and close(A.value, constrained(T, bcs)), w,
                                               f"matrix {A.value.tolist()} instead of {constrained(T, bcs).tolist()}")
            bad = bad or not chk.check(close(u.x.array, before), w, "the unknown changed")
            if bad:
                break
            if op == "n":
                x.local[:N] -= np.linalg.solve(A.value, b.local[:N])
                u.x.scatter_forward()
chk.extra["operations"] = steps_done
chk.finish()
