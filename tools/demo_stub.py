"""Inert stand-ins for packages that are not installed; the repository's files are used unchanged."""
import importlib, importlib.abc, importlib.machinery, os, sys, types, abc


class _Meta(abc.ABCMeta):
    def __getattr__(cls, name):
        if name.startswith("__") or name.startswith("_abc"):
            raise AttributeError(name)
        v = _Meta(name, (Stub,), {})
        setattr(cls, name, v)
        return v
    def __or__(cls, other):
        return object
    __ror__ = __or__
    def __iter__(cls):
        return iter(())


class Stub(metaclass=_Meta):
    def __init__(self, *a, **k):
        pass
    def __call__(self, *a, **k):
        return a[0] if len(a) == 1 and callable(a[0]) and not k else Stub()
    def __class_getitem__(cls, item):
        return cls


class Module(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = _Meta(name, (Stub,), {"__module__": self.__name__})
        setattr(self, name, v)
        return v


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, roots):
        self.roots = roots
    def find_spec(self, name, path=None, target=None):
        if any(name == r or name.startswith(r + ".") for r in self.roots):
            spec = importlib.machinery.ModuleSpec(name, self, is_package=True)
            spec.submodule_search_locations = []
            return spec
    def create_module(self, spec):
        return Module(spec.name)
    def exec_module(self, module):
        parent, _, leaf = module.__name__.rpartition(".")
        if parent in sys.modules:
            sys.modules[parent].__dict__[leaf] = module


sys.meta_path.insert(0, Finder(("dolfinx", "ufl", "ffcx", "mpi4py", "petsc4py", "pyvista", "scipy", "cffi",
                                "vtk", "qugar.cpp")))
for m, v in {"dolfinx.cpp": "0.10.0", "ffcx": "0.10.0", "ufl": "2025.2.0", "dolfinx": "0.10.0"}.items():
    importlib.import_module(m).__version__ = v
sys.path.insert(0, os.path.join(os.getcwd(), "python"))
