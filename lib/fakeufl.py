"""Cells of UFL, as far as qugar uses them (names and dimensions work as methods and as properties,
as in the older and in the newer releases)."""
import weakref

import basix

SUB = {"vertex": (), "interval": ("vertex",), "triangle": ("vertex", "interval"),
       "quadrilateral": ("vertex", "interval"), "tetrahedron": ("vertex", "interval", "triangle"),
       "hexahedron": ("vertex", "interval", "quadrilateral"), "prism": None, "pyramid": None}
TDIM = {"vertex": 0, "interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3,
        "prism": 3, "pyramid": 3}


class CStr(str):
    def __call__(self):
        return str(self)


class CInt(int):
    def __call__(self):
        return int(self)


class Cell:
    """Not equal to its name, as in UFL."""

    def __init__(self, name, *a, **k):
        self._n = str(name)

    cellname = property(lambda s: CStr(s._n))
    topological_dimension = property(lambda s: CInt(TDIM[s._n]))

    def num_sub_entities(self, d):
        t = basix.topology(getattr(basix.CellType, self._n))
        return len(t[d]) if d < len(t) else 0

    num_facets = property(lambda s: CInt(s.num_sub_entities(TDIM[s._n] - 1)))

    def sub_entity_types(self, d):
        if d == TDIM[self._n]:
            return (self,)
        return (Cell(SUB[self._n][d]),)

    def sub_entities(self, d):
        return tuple(self.sub_entity_types(d)[0] for _ in range(self.num_sub_entities(d)))

    def facet_types(self):
        return self.sub_entity_types(TDIM[self._n] - 1)

    def facets(self):
        return self.sub_entities(TDIM[self._n] - 1)

    def __eq__(self, o):
        return isinstance(o, Cell) and o._n == self._n

    def __hash__(self):
        return hash(("Cell", self._n))

    def __str__(self):
        return self._n

    __repr__ = __str__


def overlay():
    import ufl
    ufl.Cell = ufl.AbstractCell = Cell


# ---- measures, integrals and forms -----------------------------------------------------------------
import itertools  # noqa: E402
import numbers  # noqa: E402

import numpy as np  # noqa: E402


class Expr:
    """An expression tree with a shape; `ev(env)` evaluates it with numpy."""

    def __init__(self, op, *args, shape=()):
        self.op, self.ufl_operands, self.ufl_shape = op, args, tuple(shape)

    def ev(self, env):
        a = [x.ev(env) if isinstance(x, Expr) else x for x in self.ufl_operands]
        o = self.op
        if o == "mul":
            x, y = np.asarray(a[0]), np.asarray(a[1])
            return x * y if x.ndim == 0 or y.ndim == 0 else x @ y
        if o == "div":
            return a[0] / a[1]
        if o == "sqrt":
            return np.sqrt(a[0])
        if o in ("inner", "dot"):
            return np.sum(np.asarray(a[0]) * np.asarray(a[1]))
        if o == "transpose":
            return np.asarray(a[0]).T
        if o == "inv":
            return np.linalg.inv(a[0])
        if o == "det":
            return np.linalg.det(a[0])
        if o == "jacobian":
            return env["J"]
        if o == "const":
            return env.get(type(self), env.get(id(self), self.value))
        raise NotImplementedError(o)

    def __mul__(self, o):
        if isinstance(o, (Measure, MeasureSum)):
            return NotImplemented
        s, t = self.ufl_shape, getattr(o, "ufl_shape", ())
        return Expr("mul", self, o, shape=(s + t if not s or not t else s[:-1] + t[1:]))

    def __rmul__(self, o):
        return Expr("mul", o, self, shape=self.ufl_shape)

    def __truediv__(self, o):
        return Expr("div", self, o, shape=self.ufl_shape)

    def factors(self):
        """Leaves and non-product subexpressions of a product, as a list."""
        if self.op == "mul":
            return [f for a in self.ufl_operands for f in (a.factors() if isinstance(a, Expr) else [a])]
        return [self]


class Constant(Expr):
    def __init__(self, domain, c):
        self.value = np.asarray(c)
        super().__init__("const", shape=self.value.shape)
        self._domain = weakref.ref(domain)  # as in DOLFINx, a constant does not keep its mesh
        self._cpp_object = ("cpp", self)

    @property
    def domain(self):
        return self._domain()


def Jacobian(domain):
    d = domain.ufl_domain() if hasattr(domain, "ufl_domain") else domain
    return Expr("jacobian", shape=d.jshape)


OPS = dict(sqrt=lambda x: Expr("sqrt", x), inner=lambda a, b: Expr("inner", a, b),
           dot=lambda a, b: Expr("dot", a, b), inv=lambda x: Expr("inv", x, shape=x.ufl_shape[::-1]),
           transpose=lambda x: Expr("transpose", x, shape=x.ufl_shape[::-1]), det=lambda x: Expr("det", x))
NAMES = {"cell": "dx", "exterior_facet": "ds", "interior_facet": "dS", "vertex": "dP"}
EMPTY = {}  # shared by every measure without metadata, as in UFL


def id_or_none(obj):
    if isinstance(obj, (list, tuple)):
        return tuple(map(id_or_none, obj))
    if obj is None:
        return None
    if hasattr(obj, "ufl_id"):
        return obj.ufl_id()
    return id(obj)


class Measure:
    def __init__(self, integral_type, domain=None, subdomain_id="everywhere", metadata=None, subdomain_data=None):
        self._integral_type = integral_type
        self._domain = domain.ufl_domain() if hasattr(domain, "ufl_domain") else domain
        self._subdomain_data = subdomain_data
        for d in subdomain_id if isinstance(subdomain_id, tuple) else (subdomain_id,):
            if not (d in ("everywhere", "otherwise") or isinstance(d, numbers.Integral)):
                raise ValueError(f"Invalid subdomain_id {d}.")
        self._subdomain_id = subdomain_id
        if metadata is not None and not isinstance(metadata, dict):
            raise ValueError("Invalid metadata.")
        self._metadata = metadata or EMPTY

    def integral_type(self):
        return self._integral_type

    def ufl_domain(self):
        return self._domain

    def subdomain_id(self):
        return self._subdomain_id

    def metadata(self):
        return self._metadata

    def subdomain_data(self):
        return self._subdomain_data

    def reconstruct(self, integral_type=None, subdomain_id=None, domain=None, metadata=None, subdomain_data=None):
        if subdomain_id is None:
            subdomain_id = self.subdomain_id()
        if domain is None:
            domain = self.ufl_domain()
        if metadata is None:
            metadata = self.metadata()
        if subdomain_data is None:
            subdomain_data = self.subdomain_data()
        return Measure(self.integral_type(), domain=domain, subdomain_id=subdomain_id, metadata=metadata,
                       subdomain_data=subdomain_data)

    def __call__(self, subdomain_id=None, metadata=None, domain=None, subdomain_data=None, degree=None, scheme=None):
        if all(a is None for a in (subdomain_id, metadata, domain, subdomain_data, degree, scheme)):
            return self.reconstruct(subdomain_id="everywhere")
        if subdomain_id is not None and hasattr(subdomain_id, "ufl_domain"):
            assert domain is None
            domain, subdomain_id = subdomain_id, "everywhere"
        if (degree, scheme) != (None, None):
            metadata = {} if metadata is None else metadata.copy()
            if degree is not None:
                metadata["quadrature_degree"] = degree
            if scheme is not None:
                metadata["quadrature_rule"] = scheme
        return self.reconstruct(subdomain_id=subdomain_id, domain=domain, metadata=metadata,
                                subdomain_data=subdomain_data)

    def __add__(self, o):
        return MeasureSum(*(self._all() + o._all())) if isinstance(o, (Measure, MeasureSum)) else NotImplemented

    def _all(self):
        return [self]

    def __mul__(self, o):
        raise ValueError("Can't multiply Measure from the right")

    def __rmul__(self, integrand):
        sid = self.subdomain_id()
        if isinstance(sid, tuple):
            return Form(list(itertools.chain(
                *((integrand * self.reconstruct(subdomain_id=d)).integrals() for d in sid))))
        return Form([Integral(integrand, self.integral_type(), self.ufl_domain(), sid, self.metadata(),
                              self.subdomain_data())])

    def __str__(self):
        return f"{NAMES[self._integral_type]}({self._subdomain_id})"

    def __repr__(self):
        return f"Measure({self._integral_type!r}, subdomain_id={self._subdomain_id!r})"

    def _key(self):
        return (self._integral_type, self._subdomain_id, hash(self._domain),
                tuple(sorted((k, id(v)) for k, v in self._metadata.items())), id_or_none(self._subdomain_data))

    def __hash__(self):
        return hash(self._key())

    def __eq__(self, o):
        return isinstance(o, Measure) and self._key()[:1] == o._key()[:1] and (
            self._subdomain_id == o._subdomain_id and self._domain == o._domain
            and id_or_none(self._subdomain_data) == id_or_none(o._subdomain_data)
            and self._key()[3] == o._key()[3])


class MeasureSum:
    def __init__(self, *m):
        self._measures = m

    def _all(self):
        return list(self._measures)

    __add__ = Measure.__add__

    def __rmul__(self, integrand):
        return Form(list(itertools.chain(*((integrand * m).integrals() for m in self._measures))))


class Integral:
    def __init__(self, integrand, integral_type, domain, subdomain_id, metadata, subdomain_data, extra=None):
        self._integrand, self._integral_type, self._ufl_domain = integrand, integral_type, domain
        self._subdomain_id, self._metadata, self._subdomain_data = subdomain_id, metadata, subdomain_data

    def reconstruct(self, integrand=None, integral_type=None, domain=None, subdomain_id=None, metadata=None,
                    subdomain_data=None):
        pick = lambda v, d: d if v is None else v  # noqa: E731
        return Integral(pick(integrand, self._integrand), pick(integral_type, self._integral_type),
                        pick(domain, self._ufl_domain), pick(subdomain_id, self._subdomain_id),
                        pick(metadata, self._metadata), pick(subdomain_data, self._subdomain_data))

    integrand = lambda s: s._integrand  # noqa: E731
    integral_type = lambda s: s._integral_type  # noqa: E731
    ufl_domain = lambda s: s._ufl_domain  # noqa: E731
    subdomain_id = lambda s: s._subdomain_id  # noqa: E731
    metadata = lambda s: s._metadata  # noqa: E731
    subdomain_data = lambda s: s._subdomain_data  # noqa: E731


class Form:
    """Integrals are sorted canonically and the derived data is cached, as in UFL."""

    def __init__(self, integrals):
        if not all(isinstance(i, Integral) for i in integrals):
            raise ValueError("Expecting list of integrals.")
        key = lambda i: (i._integral_type, type(i._subdomain_id).__name__, i._subdomain_id)  # noqa: E731
        self._integrals = tuple(sorted(integrals, key=key))
        self._sd = None

    def integrals(self):
        return self._integrals

    def integrals_by_type(self, t):
        return tuple(i for i in self._integrals if i.integral_type() == t)

    def empty(self):
        return len(self.integrals()) == 0

    def ufl_domains(self):
        return tuple(dict.fromkeys(i.ufl_domain() for i in self._integrals))

    def ufl_domain(self):
        (d,) = self.ufl_domains()
        return d

    def subdomain_data(self):
        if self._sd is None:
            self._sd = {d: {} for d in self.ufl_domains()}
            for i in self._integrals:
                self._sd[i.ufl_domain()].setdefault(i.integral_type(), []).append(i.subdomain_data())
        return self._sd

    def _leaves(self, name):
        out = []
        for i in self._integrals:
            for x in getattr(i._integrand, name, ()):
                if x not in out:
                    out.append(x)
        return sorted(out, key=lambda x: x.number)

    def arguments(self):
        return tuple(self._leaves("args"))

    def coefficients(self):
        return tuple(self._leaves("coefs"))

    def constants(self):
        return tuple(self._leaves("consts"))

    def __add__(self, o):
        return Form(list(self._integrals) + list(o._integrals)) if isinstance(o, Form) else NotImplemented


def forms_overlay():
    import dolfinx.fem
    import ufl
    import ufl.form
    import ufl.geometry
    import ufl.integral
    import ufl.measure
    import ufl.operators
    import ufl.protocols
    dolfinx.fem.Constant = Constant
    ufl.Measure = ufl.measure.Measure = Measure
    ufl.measure.MeasureSum = MeasureSum
    ufl.measure.integral_type_to_measure_name = NAMES
    ufl.Form = ufl.form.Form = Form
    ufl.Integral = ufl.integral.Integral = Integral
    ufl.Jacobian = ufl.geometry.Jacobian = Jacobian
    ufl.protocols.id_or_none = id_or_none
    for n, f in OPS.items():
        setattr(ufl, n, f)
        setattr(ufl.operators, n, f)
