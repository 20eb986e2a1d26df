"""Stand-ins for the packages that cannot be installed here (dolfinx, ufl, ffcx, mpi4py, ...).

Importing any module below one of the stubbed roots succeeds; any attribute that has not been given
a meaning by a check is an inert class created on first use. Checks overlay the few names whose
behaviour matters. The modules under test are the files of /repo/python/qugar, unchanged.
"""
import abc
import importlib.abc
import importlib.machinery
import sys
import types

ROOTS = ("dolfinx", "ufl", "ffcx", "mpi4py", "petsc4py", "pyvista", "scipy", "cffi", "vtk")


class _Meta(abc.ABCMeta):
    def __getattr__(cls, name):
        if name.startswith("__") or name.startswith("_abc"):
            raise AttributeError(name)
        v = _Meta(name, (Stub,), {})
        setattr(cls, name, v)
        return v

    def __or__(cls, other):
        return object

    __ror__ = __or__

    def __iter__(cls):
        return iter(())


class Stub(metaclass=_Meta):
    """Inert value: accepts any construction and decoration."""

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        if len(a) == 1 and callable(a[0]) and not k:
            return a[0]
        return Stub()

    def __class_getitem__(cls, item):
        return cls

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Meta(name, (Stub,), {})


class StubModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__") and name not in ("__version__",):
            raise AttributeError(name)
        full = f"{self.__name__}.{name}"
        if full in sys.modules:
            return sys.modules[full]
        v = _Meta(name, (Stub,), {"__module__": self.__name__})
        setattr(self, name, v)
        return v


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, roots):
        self.roots = roots

    def find_spec(self, name, path=None, target=None):
        for r in self.roots:
            if name == r or name.startswith(r + "."):
                spec = importlib.machinery.ModuleSpec(name, self, is_package=True)
                spec.submodule_search_locations = []
                return spec
        return None

    def create_module(self, spec):
        return StubModule(spec.name)

    def exec_module(self, module):
        parent, _, leaf = module.__name__.rpartition(".")
        if parent and parent in sys.modules:
            sys.modules[parent].__dict__[leaf] = module


VERSIONS = {"dolfinx.cpp": "0.10.0", "ffcx": "0.10.0", "ufl": "2025.2.0", "dolfinx": "0.10.0"}


def install(roots=ROOTS, cpp=True, versions=VERSIONS, drop=()):
    """Installs the stand-ins and puts /repo/python on the path."""
    import vf
    roots = tuple(r for r in roots if r not in drop) + (("qugar.cpp",) if cpp else ())
    sys.meta_path.insert(0, Finder(roots))
    for m, v in versions.items():
        import importlib
        importlib.import_module(m).__version__ = v
    p = str(vf.REPO / "python")
    if p not in sys.path:
        sys.path.insert(0, p)


def bare_packages(*names):
    """Registers packages without running their __init__ (their submodules are the real files)."""
    import vf
    for n in names:
        m = types.ModuleType(n)
        m.__path__ = [str(vf.REPO / "python" / n.replace(".", "/"))]
        sys.modules[n] = m
        if "." in n:
            setattr(sys.modules[n.rpartition(".")[0]], n.rpartition(".")[2], m)
