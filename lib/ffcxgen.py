"""A small form compiler that writes kernels the way FFCx 0.10 does.

`Itg` describes one integral: cell, kind, rank, rules, and for every rule a list of terms. Each term
is a product of a test and a trial function (component, derivatives, side), coefficient values,
constants, Jacobian entries and components of an unfitted normal. `generate` writes the C code
(static tables, piecewise expressions before the loops, one loop per rule) together with the
intermediate representation that qugar reads (tables and their types, terminals, offsets).
`evaluate` gives the element tensor the integral should have for given points, computed with basix.
"""
import enum
import hashlib
import itertools
import math
import types

import basix
import basix.ufl
import numpy as np
import ufl.geometry

UFCX_H = """#pragma once
#include <stdbool.h>
#include <stdint.h>
typedef struct ufcx_integral {
  const bool* enabled_coefficients;
  void (*tabulate_tensor_float32)(float* restrict A, const float* restrict w, const float* restrict c,
    const float* restrict coordinate_dofs, const int* restrict entity_local_index,
    const uint8_t* restrict quadrature_permutation, void* custom_data);
  void (*tabulate_tensor_float64)(double* restrict A, const double* restrict w, const double* restrict c,
    const double* restrict coordinate_dofs, const int* restrict entity_local_index,
    const uint8_t* restrict quadrature_permutation, void* custom_data);
  void (*tabulate_tensor_complex64)(float _Complex* restrict A, const float _Complex* restrict w,
    const float _Complex* restrict c, const float* restrict coordinate_dofs,
    const int* restrict entity_local_index, const uint8_t* restrict quadrature_permutation, void* custom_data);
  void (*tabulate_tensor_complex128)(double _Complex* restrict A, const double _Complex* restrict w,
    const double _Complex* restrict c, const double* restrict coordinate_dofs,
    const int* restrict entity_local_index, const uint8_t* restrict quadrature_permutation, void* custom_data);
  bool needs_facet_permutations;
  uint64_t coordinate_element_hash;
} ufcx_integral;
typedef struct ufcx_form {
  const char* signature;
  int rank;
  const int* form_integral_ids;
  ufcx_integral** form_integrals;
  const int* form_integral_offsets;
} ufcx_form;
"""
CTYPE = {"float32": ("float", "float"), "float64": ("double", "double"),
         "complex64": ("float _Complex", "float"), "complex128": ("double _Complex", "double")}
TDIM = {"interval": 1, "triangle": 2, "quadrilateral": 2, "tetrahedron": 3, "hexahedron": 3}
FACET = {"triangle": "interval", "quadrilateral": "interval", "tetrahedron": "triangle", "hexahedron": "quadrilateral"}
NPERM = {"interval": 2, "triangle": 6, "quadrilateral": 8}


def bcell(name):
    return getattr(basix.CellType, name)


def permute(facet, pts, p):
    """FFCx' permutations of facet points: rotations first, then a reflection; index 2*rot+ref."""
    x = np.array(pts, dtype=float)
    if facet == "interval":
        return 1 - x if p else x
    rot, ref = divmod(p, 2)
    for _ in range(rot):
        x = np.stack([x[:, 1], (1 - x[:, 0] - x[:, 1]) if facet == "triangle" else 1 - x[:, 0]], axis=1)
    return x[:, ::-1].copy() if ref else x


def to_facet(cell, f, x):
    g, t = basix.geometry(bcell(cell)), basix.topology(bcell(cell))[TDIM[cell] - 1][f]
    v = g[t]
    return v[0] + sum(np.outer(x[:, k], v[k + 1] - v[0]) for k in range(TDIM[cell] - 1))


class Rule:
    """FFCx' rules: identified by their points."""

    def __init__(self, points, weights, tensor_factors=None):
        self.points, self.weights = np.ascontiguousarray(points), np.asarray(weights)
        self.tensor_factors, self.has_tensor_factors = tensor_factors, tensor_factors is not None
        self._hash = None

    def __hash__(self):
        if self._hash is None:
            self.hash_obj = hashlib.sha1(self.points)
            self._hash = int(self.hash_obj.hexdigest(), 32)
        return self._hash

    def __eq__(self, o):
        return self.points.shape == o.points.shape and np.allclose(self.points, o.points) and np.allclose(self.weights, o.weights)

    def id(self):
        hash(self)
        return self.hash_obj.hexdigest()[-3:]


def static_points(cell, kind, degree):
    """Points and weights of FFCx for a rule of the given degree; negative: the single dummy point of an
    unfitted boundary."""
    c = bcell(cell if kind == "cell" else FACET[cell])
    return basix.make_quadrature(c, degree)


class Fun:
    """A basis function family in a term: argument (number) or coefficient (index), flat component,
    derivatives and side."""

    def __init__(self, what, num, comp=0, der=(), side=0):
        self.what, self.num, self.comp, self.der, self.side = what, num, comp, tuple(der), side


class Term:
    def __init__(self, args=(), factors=()):
        self.args, self.factors = tuple(args), tuple(factors)  # factors: Fun | ("c", k) | ("J", r, s, side) | ("n", i) | ("ref",)


class TQ:
    """Quadrature in an integral: degree, whether it is an unfitted boundary, and its terms."""

    def __init__(self, degree, terms, unfitted=False, points=None, extra=()):
        self.degree, self.terms, self.unfitted, self.points = degree, list(terms), unfitted, points
        self.extra = tuple(extra)  # lower degrees that share the points of the rule


class GQ(ufl.geometry.GeometricQuantity):
    def __init__(self, dom):
        self.ufl_dom = dom


class MT:
    def __init__(self, terminal, element=None, fc=0, der=()):
        self.terminal, self.el, self.fc = terminal, element, fc
        self.der = tuple(der) + (0,) * (basix_tdim(element) - len(der)) if element is not None else ()


class Coeff:
    def __init__(self, el, key):
        self.el, self.key = el, key

    def ufl_function_space(self):
        return types.SimpleNamespace(element=types.SimpleNamespace(space_dimension=self.el.dim), ufl_element=lambda: self.el)


class Domain:
    def __init__(self, cell):
        self.c = ufl.Cell(cell)

    def ufl_cell(self):
        return self.c


class Itg:
    def __init__(self, name, kind, cell, quads, spaces, coeffs=(), nconst=0, normal_at=None, gdeg=1, ids=(0,), dtype="float64"):
        """spaces: elements of the arguments (by number); coeffs: elements of the coefficients."""
        self.name, self.kind, self.cell, self.quads, self.spaces = name, kind, cell, quads, list(spaces)
        self.coeffs, self.nconst, self.normal_at, self.ids, self.dtype = list(coeffs), nconst, normal_at, list(ids), dtype
        self.tdim = TDIM[cell]
        self.gel = basix.ufl.element("Lagrange", cell, gdeg)
        self.width = 2 if kind == "interior_facet" else 1
        self.dom = Domain(cell)

    # sizes
    def dims(self):
        return [self.width * e.dim for e in self.spaces]

    def coffs(self):
        return [self.width * sum(e.dim for e in self.coeffs[:k]) for k in range(len(self.coeffs) + 1)]

    def mixed_dim(self):
        return any(codim(self, e) for e in self.spaces + self.coeffs)

    def element(self, f):
        return (self.spaces if f.what == "arg" else self.coeffs)[f.num]


def codim(itg, el):
    return itg.tdim - basix_tdim(el)


def basix_tdim(el):
    return len(basix.topology(el.cell_type)) - 1


def scalar_view(el, comp):
    """(component element, offset, stride) as basix gives it to FFCx."""
    return el.get_component_element(comp)


def tab(el, comp, der, pts):
    """Values of a component's derivative at points of the element's own cell: (points, dofs)."""
    ce, _, _ = scalar_view(el, comp)
    d = sum(der)
    full = list(der) + [0] * (basix_tdim(el) - len(der))
    return ce.tabulate(d, pts)[basix.index(*full)]


def table(itg, rule, el, comp, der):
    """The table of FFCx: [permutation][entity][point][dof]."""
    pts = rule.points
    if itg.kind == "cell":
        return np.array([[tab(el, comp, der, pts)]])
    if codim(itg, el) == 1:
        return np.array([[tab(el, comp, der, pts)]])
    nf = len(basix.topology(bcell(itg.cell))[itg.tdim - 1])
    fc = FACET[itg.cell]
    perms = range(NPERM[fc]) if itg.kind == "interior_facet" or itg.mixed_dim() else (0,)
    return np.array([[tab(el, comp, der, to_facet(itg.cell, f, permute(fc, pts, p))) for f in range(nf)] for p in perms])


def ttype(t):
    if np.allclose(t, 0):
        return "zeros"
    if np.allclose(t, 1):
        return "ones"
    n = t.shape[2]
    if n == t.shape[3] and all(np.allclose(t[0, i], np.eye(n)) for i in range(t.shape[1])):
        return "quadrature"
    pw = all(np.allclose(t[0, :, 0], t[0, :, i]) for i in range(n))
    un = all(np.allclose(t[0, 0], t[0, i]) for i in range(t.shape[1]))
    return {(1, 1): "fixed", (1, 0): "piecewise", (0, 1): "uniform", (0, 0): "varying"}[int(pw), int(un)]


class Ref:
    """Reference to a table."""

    def __init__(self, name, values, tt):
        self.name, self.values, self.ttype = name, values, tt
        self.piecewise = tt in ("piecewise", "fixed", "ones", "zeros")
        self.uniform = tt in ("fixed", "ones", "zeros", "uniform")
        self.permuted = values.shape[0] > 1


class Unsupported(Exception):
    """FFCx itself does not handle the case (or reserves a special path for it)."""


class Builder:
    def __init__(self, itg, number):
        self.itg, self.tables, self.types, self.number = itg, {}, {}, number
        self.nodes = {}

    def ref(self, rule, el, comp, der):
        itg = self.itg
        t = table(itg, rule, el, comp, der)
        t = np.where(np.abs(t) < 1e-14, 0.0, t)
        for v in (-1.0, 0.0, 1.0):
            t = np.where(np.abs(t - v) < 1e-13, v, t)
        tt = ttype(t)
        if tt == "quadrature":
            raise Unsupported("collocated table")
        if tt in ("zeros", "ones"):
            x = np.random.RandomState(0).rand(5, basix_tdim(el)) / 3
            if not np.allclose(tab(el, comp, der, x), tt == "ones"):
                raise Unsupported("FFCx takes the table for a constant one")
        r = Ref("", t, tt)
        if r.piecewise:
            t = t[:, :, :1]
        if r.uniform:
            t = t[:, :1]
        if all(np.allclose(t[0], t[p]) for p in range(t.shape[0])):
            t = t[:1]
        der = tuple(der) + (0,) * (basix_tdim(el) - len(der))
        n = f"FE{self.number(el)}_C{comp}" + ("_D" + "".join(map(str, der)) if any(der) else "") + \
            ("" if itg.kind == "cell" else "_F") + f"_Q{rule.id()}"
        for k, v in self.tables.items():
            if v.shape == t.shape and np.allclose(v, t):
                n, t = k, v
                break
        else:
            if tt not in ("zeros", "ones"):
                assert n not in self.tables, n
                self.tables[n] = t
                self.types[n] = tt
        return Ref(n, t, tt)

    def access(self, r, side, iq, dof):
        ent = "0"
        if self.itg.kind != "cell" and not r.uniform:
            ent = f"entity_local_index[{side}]"
        q = "0" if r.piecewise else iq
        p = f"quadrature_permutation[{side}]" if r.permuted else "0"
        return f"{r.name}[{p}][{ent}][{q}][{dof}]"


def fmt(a, real):
    if a.ndim == 0:
        return repr(float(a))
    inner = [fmt(x, real) for x in a]
    return "{" + (", " if a.ndim == 1 else ",\n  ").join(inner) + "}"


def sfx(side, kind):
    return "" if kind != "interior_facet" else f"_{side}"


def generate(itg, number, order=1):
    """Returns (C code, intermediate representation of the integral)."""
    scal, real = CTYPE[itg.dtype]
    B = Builder(itg, number)
    rules, integrand = [], {}
    pw_code, loops = [], []
    cache = set()
    symbols = {}
    used_ref = False
    for q in itg.quads:
        pts, wts = q.points if q.points is not None else static_points(itg.cell, itg.kind, q.degree)
        q.rule = Rule(pts, wts)
        q.rule_id = q.rule.id()
    for q in itg.quads[::order]:
        rule, rid = q.rule, q.rule.id()
        nodes = {}
        rules.append((rid, rule))
        loop, arr = [], []
        lcache = set()
        nsp = nsv = nfw = 0

        def node(mt, ref=None):
            nodes[len(nodes)] = {"mt": mt, "tr": ref and types.SimpleNamespace(name=ref.name, ttype=ref.ttype)}

        node(MT(GQ(itg.dom)))

        def add(symbol, piecewise, lines, table):
            # FFCx computes a symbol once if it is piecewise for any of the rules: it goes wrong when it only
            # looks so for one of them (rules of one point)
            if symbols.setdefault(symbol, (piecewise, table.name if piecewise else "")) != \
                    (piecewise, table.name if piecewise else ""):
                raise Unsupported("symbol that only looks piecewise")
            if piecewise:
                if symbol not in cache:
                    cache.add(symbol)
                    pw_code.extend(lines)
            elif symbol not in lcache:
                lcache.add(symbol)
                loop.extend(lines)

        def jac(r, s, side):
            der = [0] * itg.tdim
            der[s] = 1
            t = B.ref(rule, itg.gel, 0, der)
            node(MT(GQ(itg.dom), itg.gel, 0, der), t)
            name = f"J{side if itg.kind == 'interior_facet' else ''}_c{r * itg.tdim + s}"
            off = 3 * itg.gel.dim * side + r
            assert t.ttype not in ("zeros", "ones")
            add(name, t.piecewise, ["// ------------------------ ", "// Section: Jacobian",
                                    f"// Inputs: coordinate_dofs, {t.name}", f"// Outputs: {name}",
                                    f"{real} {name} = 0.0;", "{",
                                    f"  for (int ic = 0; ic < {itg.gel.dim}; ++ic)", "  {",
                                    f"    {name} += coordinate_dofs[(ic) * 3 + {off}] * {B.access(t, side, 'iq', 'ic')};",
                                    "  }", "}", "// ------------------------ "], t)
            return name, t.piecewise

        def coeff(f):
            el = itg.coeffs[f.num]
            t = B.ref(rule, el, f.comp, f.der)
            node(MT(object(), el, f.comp, f.der), t)
            ce, off, stride = scalar_view(el, f.comp)
            n = t.values.shape[3]
            base = itg.coffs()[f.num] + f.side * el.dim + off
            name = f"w{f.num}" + (f"_d{''.join(map(str, f.der))}" if any(f.der) else "") + f"_c{f.comp}" + sfx(f.side, itg.kind)
            if t.ttype == "zeros":
                return "0.0", True
            ix = "ic" if stride == 1 else f"{stride} * ic"
            acc = "1.0" if t.ttype == "ones" else B.access(t, f.side, "iq", "ic")
            if t.ttype == "ones" and n == 1:
                return f"w[{base}]", True
            add(name, t.piecewise, ["// ------------------------ ", "// Section: Coefficient",
                                    f"// Inputs: w, {t.name}", f"// Outputs: {name}",
                                    f"{scal} {name} = 0.0;", "{", f"  for (int ic = 0; ic < {n}; ++ic)", "  {",
                                    f"    {name} += w[{base} + {ix}] * {acc};" if base else f"    {name} += w[{ix}] * {acc};",
                                    "  }", "}", "// ------------------------ "], t)
            return name, t.piecewise

        for term in q.terms:
            pw, vr = [], []
            for f in term.factors:
                if isinstance(f, Fun):
                    s, p = coeff(f)
                elif f[0] == "c":
                    s, p = f"c[{f[1]}]", True
                elif f[0] == "n":
                    s, p = f"c[{itg.normal_at + f[1]}]", True
                elif f[0] == "J":
                    s, p = jac(*f[1:])
                elif f[0] == "ref":
                    used_ref = True
                    s, p = f"{itg.cell}_reference_facet_jacobian[entity_local_index[{f[1]}]][0][0]", True
                (pw if p else vr).append(s)
            if pw:
                sp = f"sp_{rid}_{nsp}"
                nsp += 1
                if len(pw) == 1:
                    pw_code.append(f"{scal} {sp} = {pw[0]};")
                else:
                    cur = pw[0]
                    for k, x in enumerate(pw[1:]):
                        nm = sp if k == len(pw) - 2 else f"{sp}_{k}"
                        pw_code.append(f"{scal} {nm} = {cur} * {x};")
                        cur = nm
                vr = [sp] + vr
            fw = f"fw{nfw}"
            nfw += 1
            loop += ["// ------------------------ ", "// Section: Intermediates", f"// Inputs: {', '.join(vr)}",
                     f"// Outputs: {fw}", f"{scal} {fw} = 0;", "{"]
            if len(vr) > 1:
                sv = f"sv_{rid}_{nsv}"
                nsv += 1
                loop += [f"  {scal} {sv} = {' * '.join(vr)};", f"  {fw} = {sv} * weights_{rid}[iq];"]
            elif vr:
                loop += [f"  {fw} = {vr[0]} * weights_{rid}[iq];"]
            else:
                loop += [f"  {fw} = weights_{rid}[iq];"]
            loop += ["}", "// ------------------------ "]
            # tensor computation
            accs, idx, loops_, zero = [fw], [], [], False
            for k, a in enumerate(term.args):
                el = itg.spaces[a.num]
                t = B.ref(rule, el, a.comp, a.der)
                node(MT(object(), el, a.comp, a.der), t)
                if t.ttype == "zeros":
                    zero = True
                    break
                ce, off, stride = scalar_view(el, a.comp)
                v = "ij"[k]
                loops_.append((v, t.values.shape[3]))
                base = off + a.side * el.dim
                e = v if stride == 1 else f"{stride} * {v}"
                idx.append(f"({e} + {base})" if base else f"({e})")
                if t.ttype != "ones":
                    accs.append(B.access(t, a.side, "iq", v))
            if zero:
                continue
            d = itg.dims()
            place = "0" if not idx else idx[0] if len(idx) == 1 else f"{d[1]} * {idx[0]} + {idx[1]}"
            loop += ["// ------------------------ ", "// Section: Tensor Computation",
                     f"// Inputs: {', '.join(x.split('[')[0] for x in accs)}", "// Outputs: A", "{"]
            pad = "  "
            for v, n in loops_:
                loop += [f"{pad}for (int {v} = 0; {v} < {n}; ++{v})", pad + "{"]
                pad += "  "
            loop.append(f"{pad}A[{place}] += {' * '.join(accs)};")
            for _ in loops_:
                pad = pad[:-2]
                loop.append(pad + "}")
            loop += ["}", "// ------------------------ "]
        integrand[(bcell(itg.cell), rule)] = {"factorization": types.SimpleNamespace(nodes=nodes)}
        loops.append([f"for (int iq = 0; iq < {len(rule.weights)}; ++iq)", "{"] + ["  " + x for x in loop] + ["}"])
    body = ["// Quadrature rules"]
    for rid, rule in rules:
        body.append(f"static const {real} weights_{rid}[{len(rule.weights)}] = {fmt(rule.weights, real)};")
    body += ["// Precomputed values of basis functions and precomputations",
             "// FE* dimensions: [permutation][entities][points][dofs]"]
    for n in sorted(B.tables):
        t = B.tables[n]
        body.append(f"static const {real} {n}" + "".join(f"[{k}]" for k in t.shape) + f" = {fmt(t, real)};")
    if used_ref:
        rj = ref_jac(itg.cell)
        body.append(f"static const {real} {itg.cell}_reference_facet_jacobian" + "".join(f"[{k}]" for k in rj.shape)
                    + f" = {fmt(rj, real)};")
    body += pw_code
    for x in loops:
        body += x
    full = f"integral_{itg.name}_{itg.cell}"
    en = f"enabled_coefficients_{full}"
    funcs = "".join(f"  .tabulate_tensor_{d} = {'tabulate_tensor_' + full if d == itg.dtype else 'NULL'},\n" for d in CTYPE)
    ind = " " * 36
    code = f"""// Code for integral {full}

void tabulate_tensor_{full}({scal}* restrict A,
{ind}const {scal}* restrict w,
{ind}const {scal}* restrict c,
{ind}const {real}* restrict coordinate_dofs,
{ind}const int* restrict entity_local_index,
{ind}const uint8_t* restrict quadrature_permutation,
{ind}void* custom_data)
{{
{chr(10).join(body)}

}}

{f'bool {en}[{len(itg.coeffs)}] = {{' + ', '.join('1' for _ in itg.coeffs) + '};' if itg.coeffs else ''}

ufcx_integral {full} =
{{
  .enabled_coefficients = {en if itg.coeffs else 'NULL'},
{funcs}  .needs_facet_permutations = {'true' if any(t.shape[0] > 1 for t in B.tables.values()) else 'false'},
  .coordinate_element_hash = UINT64_C(0),
}};

// End of code for integral {full}
"""
    offs = itg.coffs()
    keys = [Coeff(e, k) for k, e in enumerate(itg.coeffs)]
    consts = {}
    for k in range(itg.nconst):
        if itg.normal_at is not None and k == itg.normal_at:
            consts[itg.make_normal()] = k
        elif itg.normal_at is None or not itg.normal_at < k < itg.normal_at + itg.tdim:
            consts[("const", k)] = k
    expr = types.SimpleNamespace(
        name=f"integral_{itg.name}", integral_type=itg.kind, entity_type="cell" if itg.kind == "cell" else "facet", integrand=integrand,
        unique_table_types={bcell(itg.cell): dict(B.types)}, unique_tables={bcell(itg.cell): B.tables},
        coefficient_offsets=dict(zip(keys, offs)), original_constant_offsets=consts)
    return code, types.SimpleNamespace(expression=expr, rank=len(itg.spaces), enabled_coefficients=[True] * len(keys))


def ref_jac(cell):
    g, top = basix.geometry(bcell(cell)), basix.topology(bcell(cell))
    d = len(top) - 2
    return np.array([np.stack([g[f[k + 1]] - g[f[0]] for k in range(d)], axis=1) + 0.25 * (i + 1) for i, f in enumerate(top[d])])


def evaluate(itg, q_data, w, c, x, ents):
    """The tensor of the integral: q_data holds, per rule, (points per side, facet points, weights, normals)."""
    d = itg.dims()
    A = np.zeros(d or (1,), dtype=w.dtype if np.iscomplexobj(w) else float).astype(complex)
    offs = itg.coffs()
    for q, (pts, fpts, wts, nrm) in zip(itg.quads, q_data):
        n = len(wts)
        if n == 0:
            continue

        def val(el, comp, der, side):
            return tab(el, comp, der, fpts if codim(itg, el) == 1 else pts[side])

        for term in q.terms:
            f = np.array(wts, dtype=complex)
            for z in term.factors:
                if isinstance(z, Fun):
                    el = itg.coeffs[z.num]
                    ce, off, st = scalar_view(el, z.comp)
                    T = val(el, z.comp, z.der, z.side)
                    f = f * (T @ w[offs[z.num] + z.side * el.dim + off:][: st * T.shape[1]: st])
                elif z[0] == "c":
                    f = f * c[z[1]]
                elif z[0] == "n":
                    f = f * nrm[:, z[1]]
                elif z[0] == "J":
                    der = [0] * itg.tdim
                    der[z[2]] = 1
                    X = x[3 * itg.gel.dim * z[3]:][: 3 * itg.gel.dim].reshape(-1, 3)[:, z[1]]
                    f = f * (val(itg.gel, 0, der, z[3]) @ X)
                elif z[0] == "ref":
                    f = f * ref_jac(itg.cell)[ents[z[1]]][0, 0]
            T, ix = [], []
            for a in term.args:
                el = itg.spaces[a.num]
                ce, off, st = scalar_view(el, a.comp)
                T.append(val(el, a.comp, a.der, a.side))
                ix.append(off + a.side * el.dim + st * np.arange(T[-1].shape[1]))
            if not T:
                A[0] += f.sum()
            elif len(T) == 1:
                A[ix[0]] += f @ T[0]
            else:
                A[np.ix_(*ix)] += np.einsum("q,qi,qj->ij", f, T[0], T[1])
    return A.reshape(-1)
