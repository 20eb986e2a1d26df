#include "lines.hpp"
#include <algorithm>
#include <qugar/cut_quadrature.hpp>
#include <qugar/quadrature.hpp>
namespace {
using namespace doms;
template<int d> using U = UnfittedImplDomain<d>;
template<int d> using FP = std::shared_ptr<const ImplicitFunc<d>>;
using Ids = std::vector<std::int64_t>;
// ---- quadratures, entity by entity
template<int d> struct Node
{
  A<d> x, n{};
  double w;
  bool operator==(const Node &) const = default;
};
template<int d> using Rule = std::vector<Node<d>>;
template<int d, int e> A<e> arr(const Point<d> &p)
{
  A<e> r{};
  for (int i = 0; i < d; ++i) r[i] = p(i);
  return r;
}
// splits a quadrature of many entities
template<int d, int e, typename Q, typename C> bool split(const Q &q, const C &counts, std::size_t n, std::vector<Rule<e>> &out, bool normals = false)
{
  out.clear();
  if (!vf::check(counts.size() == n, "counts of points for ", counts.size(), " entities instead of ", n)) return false;
  if (!vf::check(q.points.size() == q.weights.size(), q.points.size(), " points and ", q.weights.size(), " weights")) return false;
  std::size_t k = 0;
  for (const auto c : counts) {
    if (!vf::check(c >= 0 && k + static_cast<std::size_t>(c) <= q.points.size(), "the counts of points exceed the number of points")) return false;
    Rule<e> r;
    for (int i = 0; i < c; ++i, ++k) {
      Node<e> o;
      o.x = arr<d, e>(q.points[k]);
      o.w = q.weights[k];
      r.push_back(o);
    }
    out.push_back(std::move(r));
  }
  static_cast<void>(normals);
  return vf::check(k == q.points.size(), k, " points counted of ", q.points.size());
}
template<int d> bool cells_rule(const U<d> &u, const Ids &cells, int n, std::vector<Rule<d>> &out)
{
  const auto q = create_quadrature<d>(u, cells, n);
  return vf::check(q->cells == cells, "cells of the quadrature are not the requested ones") && split<d, d>(*q, q->n_pts_per_cell, cells.size(), out);
}
template<int d> bool bound_rule(const U<d> &u, const Ids &cells, int n, bool inc, bool exc, std::vector<Rule<d>> &out)
{
  const auto q = create_unfitted_bound_quadrature<d>(u, cells, n, inc, exc);
  if (!vf::check(q->cells == cells, "cells of the boundary quadrature are not the requested ones") || !split<d, d>(*q, q->n_pts_per_cell, cells.size(), out)) return false;
  if (!vf::check(q->normals.size() == q->points.size(), q->normals.size(), " normals for ", q->points.size(), " points")) return false;
  std::size_t k = 0;
  for (auto &r : out)
    for (auto &o : r) o.n = arr<d, d>(q->normals[k++]);
  return true;
}
template<int d> bool facets_rule(const U<d> &u, const Ids &cells, const std::vector<int> &facets, int n, bool inner, std::vector<Rule<d>> &out)
{
  const auto q = inner ? create_facets_quadrature_interior_integral<d>(u, cells, facets, n) : create_facets_quadrature_exterior_integral<d>(u, cells, facets, n);
  if (!vf::check(q->cells == cells && q->local_facet_ids == facets, "facets of the quadrature are not the requested ones") || !split<d - 1, d>(*q, q->n_pts_per_facet, cells.size(), out)) return false;
  for (std::size_t i = 0; i < out.size(); ++i)
    for (auto &o : out[i]) {// to the cell
      const int c = facets[i] / 2;
      for (int k = d - 1; k > c; --k) o.x[k] = o.x[k - 1];
      o.x[c] = facets[i] % 2;
      o.n = {};
      o.n[c] = facets[i] % 2 ? 1 : -1;
    }
  return true;
}
// a sequence of n things in which each ordered pair of them is found once, one after the other
std::vector<std::size_t> succession(std::size_t n)
{
  std::vector<std::size_t> out;
  for (std::size_t i = 0; i < n; ++i) {
    out.push_back(i);
    for (std::size_t j = i + 1; j < n; ++j) {
      out.push_back(i);
      out.push_back(j);
    }
  }
  out.push_back(0);
  return out;
}
template<int d> bool in_box(const Rule<d> &r, const std::string &of)
{
  for (const auto &o : r) {
    if (!vf::check(o.w >= 0 && std::isfinite(o.w), of, ": weight ", o.w)) return false;
    for (const auto v : o.x)
      if (!vf::check(v >= -1e-12 && v <= 1 + 1e-12, of, ": point at ", v)) return false;
  }
  return true;
}
template<int d> A<d> physical(const Box<d> &b, const A<d> &x)
{
  A<d> p;
  for (int i = 0; i < d; ++i) p[i] = b.lo[i] + (b.hi[i] - b.lo[i]) * x[i];
  return p;
}
double power(double x, int k) { return k == 0 ? 1 : x * power(x, k - 1); }
template<int d> bool same(const Rule<d> &a, const Rule<d> &b)
{
  if (a.size() != b.size()) return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (!(a[i] == b[i])) return false;
  return true;
}
// What is not integrated exactly is judged, relatively to the size of the
// entity, with tolerances for the most curved boundaries seen; nothing of it
// for a single point, and only volumes for domains with kinks.
template<int d> double tolerance(const Dom<d> &D, int n, const char *of, const Box<d> &b)
{
  const std::string k = of;
  const bool smooth = !D.flat && !D.rough && !D.crossing;
  const double never = 1e9;
  if (k == "fct" && d == 2) return D.grazes(b, true) ? 1e-6 : 1e-9;
  if (k == "bnd" && D.grazes(b, false)) return never;
  if (n == 1 || (!smooth && k != "vol")) return never;
  if (!smooth) return 0.05;
  const int i = std::min(n, 4) - 2;
  const double more = d == 3 && D.name.find("Bezier(") <= 1 ? 2.5 : 1;// vertical tangents without discriminants
  const auto pick = [i, more](double a, double b, double c) { return more * std::array<double, 3>{ a, b, c }[static_cast<std::size_t>(i)]; };
  if (k == "vol") return pick(0.06, 0.02, 0.015);
  if (k == "bnd") return pick(0.5, 0.25, 0.12);
  if (k == "div") return pick(0.4, 0.15, 0.06);
  return pick(0.02, 0.01, 0.01);
}
template<int d> void one(const Dom<d> &D, const Grid<d> &G, const std::vector<int> &ns)
{
  for (const int n : ns) {
    if (!vf::want(d == 2 ? "quadrature 2D" : "quadrature 3D", D.name + G.name + vf::str(" with ", n, " points"))) continue;
    vf::guarded([&] {
      const U<d> u(D.f, G.g);
      const int nc = G.n();
      const std::string fam = family(D) + vf::str(" ", n);
      Ids cells;
      for (int c = 0; c < nc; ++c) cells.push_back(c);
      std::vector<Rule<d>> vol, in, bd, bf, bx, fi, fe;
      Ids fc;
      std::vector<int> ff;
      for (int c = 0; c < nc; ++c)
        for (int f = 0; f < 2 * d; ++f) {
          fc.push_back(c);
          ff.push_back(f);
        }
      if (!cells_rule<d>(u, cells, n, vol) || !bound_rule<d>(u, cells, n, false, false, bd) || !bound_rule<d>(u, cells, n, true, false, bf) || !bound_rule<d>(u, cells, n, true, true, bx)) return;
      if (!facets_rule<d>(u, fc, ff, n, true, fi) || !facets_rule<d>(u, fc, ff, n, false, fe)) return;
      // the same entities in another order, some of them twice, with other requests meanwhile
      {
        Ids some;
        for (int k = 0; k < nc + 2; ++k) some.push_back((nc - 1 - k % nc + 2) % nc);
        std::vector<Rule<d>> r, s;
        if (!cells_rule<d>(u, { 0 }, n + 1, s) || !cells_rule<d>(u, some, n, r)) return;
        for (std::size_t i = 0; i < some.size(); ++i)
          if (!vf::check(same<d>(r[i], vol[static_cast<std::size_t>(some[i])]), "the quadrature of cell ", some[i], " depends on the request")) return;
        if (!bound_rule<d>(u, some, n, true, true, r)) return;
        for (std::size_t i = 0; i < some.size(); ++i)
          if (!vf::check(same<d>(r[i], bx[static_cast<std::size_t>(some[i])]), "the boundary quadrature of cell ", some[i], " depends on the request")) return;
        Ids oc;
        std::vector<int> of;
        std::vector<std::size_t> ix;
        for (std::size_t i = fc.size(); i-- > 0;)
          if (i % 3 != 1) {
            oc.push_back(fc[i]);
            of.push_back(ff[i]);
            ix.push_back(i);
          }
        for (const bool inner : { true, false }) {
          if (!facets_rule<d>(u, { 0 }, { 1 }, n + 1, inner, s) || !facets_rule<d>(u, oc, of, n, inner, r)) return;
          for (std::size_t i = 0; i < ix.size(); ++i)
            if (!vf::check(same<d>(r[i], (inner ? fi : fe)[ix[i]]), "the quadrature of facet ", of[i], " of cell ", oc[i], " depends on the request")) return;
        }
      }
      // every ordered pair of entities, one right after the other
      const std::size_t most = vf::thorough ? 100 : n == 2 ? 48 : 0;
      if (most > 0 && cells.size() <= most) {
        Ids cs;
        for (const auto i : succession(cells.size())) cs.push_back(cells[i]);
        std::vector<Rule<d>> r;
        if (!cells_rule<d>(u, cs, n, r)) return;
        for (std::size_t i = 0; i < cs.size(); ++i)
          if (!vf::check(same<d>(r[i], vol[static_cast<std::size_t>(cs[i])]), "the quadrature of cell ", cs[i], " depends on the one before")) return;
        if (!bound_rule<d>(u, cs, n, true, false, r)) return;
        for (std::size_t i = 0; i < cs.size(); ++i)
          if (!vf::check(same<d>(r[i], bf[static_cast<std::size_t>(cs[i])]), "the boundary quadrature of cell ", cs[i], " depends on the one before")) return;
      }
      if (most > 0 && fc.size() <= most) {
        Ids oc;
        std::vector<int> of;
        const auto ix = succession(fc.size());
        for (const auto i : ix) {
          oc.push_back(fc[i]);
          of.push_back(ff[i]);
        }
        std::vector<Rule<d>> r;
        for (const bool inner : { true, false }) {
          if (!facets_rule<d>(u, oc, of, n, inner, r)) return;
          for (std::size_t i = 0; i < ix.size(); ++i)
            if (!vf::check(same<d>(r[i], (inner ? fi : fe)[ix[i]]), "the quadrature of facet ", of[i], " of cell ", oc[i], " depends on the one before")) return;
        }
      } else {// by sides
        Ids oc;
        std::vector<int> of;
        std::vector<std::size_t> ix;
        for (std::size_t f = 0; f < 2 * d; ++f)
          for (std::size_t i = f; i < fc.size(); i += 2 * d) {
            oc.push_back(fc[i]);
            of.push_back(ff[i]);
            ix.push_back(i);
          }
        std::vector<Rule<d>> r;
        for (const bool inner : { true, false }) {
          if (!facets_rule<d>(u, oc, of, n, inner, r)) return;
          for (std::size_t i = 0; i < ix.size(); ++i)
            if (!vf::check(same<d>(r[i], (inner ? fi : fe)[ix[i]]), "the quadrature of facet ", of[i], " of cell ", oc[i], " depends on the order")) return;
        }
      }
      bool any = false;
      for (int c = 0; c < nc; ++c) {
        const auto b = G.cell(c);
        const auto k = static_cast<std::size_t>(c);
        const bool full = u.is_full_cell(c), cut = u.is_cut_cell(c);
        any |= cut;
        A<d> h;
        double V = 1, H = 0;
        for (int i = 0; i < d; ++i) {
          h[i] = b.hi[i] - b.lo[i];
          V *= h[i];
          H = std::max(H, h[i]);
        }
        if (!in_box<d>(vol[k], vf::str("cell ", c)) || !in_box<d>(bf[k], vf::str("boundary in cell ", c)) || !in_box<d>(bd[k], vf::str("boundary in cell ", c))) return;
        // full and empty cells
        int nd = 1;
        for (int i = 0; i < d; ++i) nd *= n;
        if (!full && !cut && !vf::check(vol[k].empty() && bd[k].empty() && bf[k].empty(), "points for the empty cell ", c)) return;
        if (full) {
          if (!vf::check(static_cast<int>(vol[k].size()) == nd && bd[k].empty(), "points for the full cell ", c)) return;
          for (int i = 0; i < d; ++i)
            for (int e = 0; e < 2 * n; ++e) {
              double s = 0;
              for (const auto &o : vol[k]) s += o.w * power(o.x[i], e);
              if (!vf::check(std::abs(s - 1.0 / (e + 1)) < 1e-13, "moment of order ", e, " of the full cell ", c, ": ", s)) return;
            }
        }
        // the cell
        const auto ref = reference<d>(D, b, all_dirs<d>(), d == 2 ? 200 : 28);
        double v = 0, area = 0, facet_area = 0;
        A<d> first{}, flux{};
        for (const auto &o : vol[k]) {
          const auto p = physical<d>(b, o.x);
          if (D.val(p) > 1e-9L && !vf::check(false, "point of cell ", c, " out of the domain: level set ", static_cast<double>(D.val(p)))) return;
          v += o.w * V;
          for (int i = 0; i < d; ++i) first[i] += o.w * V * (p[i] - b.lo[i]) / h[i];
        }
        if (!within(std::abs(v - ref.vol) / V, tolerance(D, n, "vol", b), fam + " vol", vf::str("measure of cell ", c, ": ", v, " instead of ", ref.vol))) return;
        for (int i = 0; i < d; ++i) {
          const double w = (ref.first[i] - b.lo[i] * ref.vol) / h[i];
          if (!within(std::abs(first[i] - w) / V, tolerance(D, n, "vol", b), fam + " vol", vf::str("moment of cell ", c, ": ", first[i], " instead of ", w))) return;
        }
        // its boundary
        const auto element = [&](const Node<d> &o, A<d> &nr) {
          double s = 0;
          for (int i = 0; i < d; ++i) {
            nr[i] = o.n[i] / h[i];
            s += nr[i] * nr[i];
          }
          s = std::sqrt(s);
          for (auto &x : nr) x /= s;
          return o.w * V * s;
        };
        for (const auto &o : bd[k]) {
          A<d> nr;
          const double s = element(o, nr);
          if (!vf::check(std::abs(norm_of<d>(o.n) - 1) < 1e-12, "normal of length ", norm_of<d>(o.n), " in cell ", c)) return;
          const auto p = physical<d>(b, o.x);
          const auto g = slope<d>(D, p);
          const double m = norm_of<d>(g);
          double dot = 0;
          for (int i = 0; i < d; ++i) dot += g[i] * nr[i];
          if (m > 1e-3) {
            if (!vf::check(std::abs(static_cast<double>(D.val(p))) < 1e-7 * m, "point out of the boundary in cell ", c, ": ", static_cast<double>(D.val(p)))) return;
            if (!D.flat && !vf::check(dot > (1 - 1e-6) * m, "normal in cell ", c, " not orthogonal to the boundary: ", dot / m)) return;
          }
          area += s;
          for (int i = 0; i < d; ++i) flux[i] += s * nr[i];
        }
        if (!within(std::abs(area - ref.area) * H / V, tolerance(D, n, "bnd", b), fam + " bnd", vf::str("boundary in cell ", c, ": ", area, " instead of ", ref.area))) return;
        for (int i = 0; i < d; ++i)
          if (!within(std::abs(flux[i] - ref.flux[i]) * H / V, tolerance(D, n, "bnd", b), fam + " bnd", vf::str("normal in cell ", c, " along ", i, ": ", flux[i], " instead of ", ref.flux[i]))) return;
        // its facets
        Rule<d> on_facets, on_inner;// the boundary there, from the facets
        for (int f = 0; f < 2 * d; ++f) {
          const auto j = k * 2 * d + static_cast<std::size_t>(f);
          const bool ext = G.next(c, f) < 0;
          const auto fb = facet_of<d>(b, f);
          const auto name = vf::str("facet ", f, " of cell ", c);
          if (!in_box<d>(fi[j], name) || !in_box<d>(fe[j], name)) return;
          if (ext && !vf::check(fi[j].empty(), "points for interior integrals in the exterior ", name)) return;
          const double FA = V / h[f / 2];
          double s = 0, t = 0;
          for (const auto &o : fi[j]) {
            s += o.w * FA;
            if (!(D.flat && D.touch(fb)) && D.val(physical<d>(b, o.x)) > 1e-9L && !vf::check(false, "point of ", name, " out of the domain")) return;
          }
          for (const auto &o : fe[j]) {
            t += o.w * FA;
            if (!(D.flat && D.touch(fb)) && D.val(physical<d>(b, o.x)) > 1e-9L && !vf::check(false, "point of ", name, " out of the domain")) return;
          }
          if (u.has_unfitted_boundary(c, f)) {
            if (!ext) on_inner.insert(on_inner.end(), fe[j].begin(), fe[j].end());
          } else if (!ext && !vf::check(fe[j].empty(), "points for exterior integrals in the interior ", name)) return;
          if ((D.curved || D.flat) && D.touch(fb)) continue;
          const Cat q = D.cat(fb);
          if (q == zero) continue;
          const double w = q == inside ? FA : q == none ? 0 : !full && !cut ? 0 : reference<d>(D, fb, all_dirs<d>(f / 2), d == 2 ? 1 : 120).vol;
          if (!within(std::abs((ext ? t : s) - w) / FA, tolerance(D, n, "fct", b), fam + " fct", vf::str("measure of ", name, ": ", ext ? t : s, " instead of ", w))) return;
        }
        // boundary in the facets
        const auto tail = [&](const Rule<d> &more, const Rule<d> &less, Rule<d> &out) {
          if (!vf::check(more.size() >= less.size() && same<d>(Rule<d>(more.begin(), more.begin() + static_cast<std::ptrdiff_t>(less.size())), less), "the boundary in cell ", c, " is another with that in its facets")) return false;
          out.assign(more.begin() + static_cast<std::ptrdiff_t>(less.size()), more.end());
          return true;
        };
        if (!tail(bf[k], bd[k], on_facets)) return;
        Rule<d> inner_only;
        if (!tail(bx[k], bd[k], inner_only)) return;
        if (!vf::check(same<d>(inner_only, on_inner), "the boundary in the interior facets of cell ", c, " is not the same for exterior integrals: ", inner_only.size(), " and ", on_inner.size(), " points")) return;
        for (const auto &o : on_facets) {
          A<d> nr;
          facet_area += element(o, nr);
          const auto p = physical<d>(b, o.x);
          if (!vf::check(D.flat || std::abs(static_cast<double>(D.val(p))) < 1e-7, "point of the boundary in a facet of cell ", c, " is not there")) return;
        }
        double expected = 0;
        bool judge_ = true;
        for (int f = 0; f < 2 * d; ++f) {
          const auto fb = facet_of<d>(b, f);
          if ((D.curved || D.flat || D.rough) && D.touch(fb)) judge_ = false;
          if (D.cat(fb) == zero) {
            if (full) expected += V / h[f / 2];
            if (cut) judge_ = false;
          }
        }
        if (D.exact && judge_ && !vf::check(std::abs(facet_area - expected) < 1e-9 * V / H, "boundary in the facets of cell ", c, ": ", facet_area, " instead of ", expected)) return;
        // divergence theorem, for x_i^(e+1) along i
        const auto close = [&](int i, int e) {
          double lhs = 0, rhs = 0;
          const auto fn = [&](const Node<d> &o) {
            A<d> nr;
            const double s = element(o, nr);
            return s * nr[i] * power(o.x[i], e + 1) * h[i];
          };
          for (const auto &o : vol[k]) lhs += o.w * V * (e + 1) * power(o.x[i], e);
          for (const auto &o : bx[k]) rhs += fn(o);
          for (int f = 0; f < 2 * d; ++f) {
            const auto j = k * 2 * d + static_cast<std::size_t>(f);
            for (const auto &o : G.next(c, f) < 0 ? fe[j] : fi[j]) rhs += fn(o);
          }
          const bool exact = D.kind == 1 && (d == 2 ? e + 1 : e + 2) <= 2 * n - 1;
          return within(std::abs(lhs - rhs) / V, exact ? 1e-9 : tolerance(D, n, "div", b), fam + (exact ? " div exact" : " div"), vf::str("divergence of order ", e, " along ", i, " in cell ", c, ": ", lhs, " and ", rhs));
        };
        for (int i = 0; i < d; ++i)
          for (int e = 0; e < 3; ++e)
            if (!close(i, e)) return;
      }
      if (any) vf::nontrivial();
    });
  }
}
// ---- slabs between planes that may lie on facets: every piece of the boundary
// belongs to exactly one cell, the one where the slab is
template<int d> void slab(const Grid<d> &G, int dir, double a, double b, bool between, bool bezier, int n)
{
  if (!vf::want(d == 2 ? "slabs 2D" : "slabs 3D", vf::str("slab ", between ? "between " : "out of ", a, " and ", b, " along ", dir, bezier ? " (polynomial)" : "", G.name, " with ", n, " points"))) return;
  vf::guarded([&] {
    const auto line = [&](double at, double sign) {
      std::vector<real> c(1 << d);
      for (int i = 0; i < (1 << d); ++i) c[static_cast<std::size_t>(i)] = sign * ((i >> dir & 1) - at);
      return BezierTP<d, 1>(TensorSizeTP<d>(2), c);
    };
    const bool flip = between != bezier;
    const auto p = line(a, flip ? -1 : 1) * line(b, 1);
    const FP<d> f = bezier ? FP<d>(p) : FP<d>(std::make_shared<funcs::Negative<d>>(p));
    const U<d> u(f, G.g);
    Ids cells;
    for (int c = 0; c < G.n(); ++c) cells.push_back(c);
    std::vector<Rule<d>> bd[2][2], fi, fe, vol;
    Ids fc;
    std::vector<int> ff;
    for (int c = 0; c < G.n(); ++c)
      for (int k = 0; k < 2 * d; ++k) {
        fc.push_back(c);
        ff.push_back(k);
      }
    for (int inc = 0; inc < 2; ++inc)
      for (int exc = 0; exc < 2; ++exc)
        if (!bound_rule<d>(u, cells, n, inc, exc, bd[inc][exc])) return;
    if (!facets_rule<d>(u, fc, ff, n, true, fi) || !facets_rule<d>(u, fc, ff, n, false, fe) || !cells_rule<d>(u, cells, n, vol)) return;
    const auto in = [&](double x) { return ((x - a) * (x - b) < 0) == between; };
    for (int c = 0; c < G.n(); ++c) {
      const auto k = static_cast<std::size_t>(c);
      const auto box = G.cell(c);
      const double lo = box.lo[dir], hi = box.hi[dir], h = hi - lo;
      // the part of the cell inside
      double part = 0;
      std::vector<double> cuts{ lo, hi };
      for (const double x : { a, b })
        if (x > lo && x < hi) cuts.push_back(x);
      std::sort(cuts.begin(), cuts.end());
      for (std::size_t i = 0; i + 1 < cuts.size(); ++i)
        if (in(0.5 * (cuts[i] + cuts[i + 1]))) part += (cuts[i + 1] - cuts[i]) / h;
      double s = 0;
      for (const auto &o : vol[k]) s += o.w;
      if (!vf::check(std::abs(s - part) < 1e-9, "measure of cell ", c, ": ", s, " instead of ", part)) return;
      for (const double x : { a, b })
        for (int side = 0; side < 2; ++side) {// the normal points to that side
          // where is that boundary?
          const double eps = 1e-4;
          const bool is = in(side ? x - eps : x + eps);// of the domain?
          const bool inner = x > lo && x < hi;
          const bool facet = side ? x == hi : x == lo;// of this cell, seen from inside
          const bool ext = facet && G.next(c, 2 * dir + side) < 0;
          for (int inc = 0; inc < 2; ++inc)
            for (int exc = 0; exc < 2; ++exc) {
              double w = 0;
              for (const auto &o : bd[inc][exc][k]) {
                if (!vf::check(std::abs(std::abs(o.n[dir]) - 1) < 1e-9, "normal in cell ", c)) return;
                if (std::abs(lo + h * o.x[dir] - x) < 1e-9 && (o.n[dir] > 0) == (side == 1)) w += o.w;
              }
              const double expected = is && (inner || (facet && inc && !(exc && ext))) ? 1 : 0;
              if (!vf::check(std::abs(w - expected) < 1e-9, "boundary at ", x, side ? " (from below)" : " (from above)", " in cell ", c, inc ? " with facets" : " without facets", exc ? " but exterior ones" : "", ": ", w, " instead of ", expected)) return;
            }
        }
      for (int q = 0; q < 2 * d; ++q) {
        const auto j = k * 2 * d + static_cast<std::size_t>(q);
        const bool ext = G.next(c, q) < 0;
        double wi = 0, we = 0;
        for (const auto &o : fi[j]) wi += o.w;
        for (const auto &o : fe[j]) we += o.w;
        double expected_i = 0, expected_e = 0;
        if (q / 2 != dir)
          (ext ? expected_e : expected_i) = part;
        else {
          const double x = q % 2 ? hi : lo;
          const bool bound = x == a || x == b;
          if (in(q % 2 ? x - 1e-4 : x + 1e-4)) (ext || bound ? expected_e : expected_i) = 1;
        }
        if (!vf::check(std::abs(wi - expected_i) < 1e-9 && std::abs(we - expected_e) < 1e-9, "facet ", q, " of cell ", c, ": ", wi, " and ", we, " for interior and exterior integrals instead of ", expected_i, " and ", expected_e)) return;
      }
    }
    vf::nontrivial();
  });
}
template<int d> void slabs(const std::vector<std::array<std::vector<double>, d>> &gs, const std::vector<int> &ns)
{
  for (const auto &g : gs) {
    const auto G = grid<d>(g);
    for (int dir = 0; dir < d; ++dir)
      for (const double a : { -1.0, 0.0, 0.5, 0.75, 1.0 })
        for (const double b : { -1.0, 0.0, 0.25, 0.5, 1.0, 3.0 })
          for (const int n : ns)
            for (const bool between : { false, true })
              for (const bool bezier : { false, true })
                if (a != b && (bezier || d == 2)) slab<d>(G, dir, a, b, between, bezier, n);
  }
}
const std::vector<double> B1{ 0, 1 }, B2{ 0, 0.5, 1 }, B3{ 0, 0.3, 0.7, 1 }, C2{ -1, 0, 1 }, C3{ -1, -0.2, 0.4, 1 }, S2{ 1, 1.6, 2 };
template<int d> void over(const std::vector<Dom<d>> &ds, const std::vector<std::array<std::vector<double>, d>> &gs, const std::vector<int> &ns)
{
  std::size_t k = 0;
  for (const auto &g : gs) {
    const auto G = grid<d>(g);
    for (const auto &D : ds) one<d>(D, G, vf::thorough ? ns : std::vector<int>{ ns[++k % ns.size()], 5 });
  }
}
void two()
{
  using L = std::vector<std::array<std::vector<double>, 2>>;
  const L gs = vf::thorough ? L{ { B1, B1 }, { B2, B2 }, { B3, B2 }, { C2, B3 }, { C3, C3 }, { S2, B2 }, { B1, S2 } } : L{ { B1, B1 }, { B2, B3 }, { C3, C2 }, { S2, B2 } };
  const std::vector<A<2>> cs = vf::thorough ? lattice<2>({ 0, 0.25, 0.5, 1, 1.5 }) : lattice<2>({ 0, 0.5, 0.8 });
  std::vector<Dom<2>> all_;
  const auto put = [&](const std::vector<Dom<2>> &v) { all_.insert(all_.end(), v.begin(), v.end()); };
  put(planes<2>(vf::thorough ? std::vector<double>{ -2, -1, 0, 1, 3 } : std::vector<double>{ -1, 0, 3 }, { 0.0, 0.25, 0.5, 0.6, 1.0 }));
  put(spheres<2>({ 0.25, 0.4, 0.5, 1.0 }, cs));
  put(ellipsoids<2>({ { 0.3, 0.8 }, { 1.2, 0.5 } }, cs));
  put(linears<2>({ -1, 0, 0.5, 2 }, vf::thorough ? 3 : 11));
  put(annuli(cs));
  put(squares<2>(vf::thorough ? lattice<2>({ 0, 0.13, 0.5, 1.07 }) : lattice<2>({ 0, 0.13, 0.5 })));
  const auto m = all_.size();
  for (std::size_t i = 0; i < m; i += vf::thorough ? 2 : 5) all_.push_back(negate<2>(all_[i]));
  over<2>(all_, gs, { 1, 2, 3, 4, 5 });
  slabs<2>(vf::thorough ? L{ { B1, B1 }, { B2, B2 }, { C2, B2 }, { B2, C2 } } : L{ { B1, B1 }, { C2, B2 } }, vf::thorough ? std::vector<int>{ 1, 2, 3, 4 } : std::vector<int>{ 2, 3 });
}
void three()
{
  using L = std::vector<std::array<std::vector<double>, 3>>;
  const L gs = vf::thorough ? L{ { B1, B1, B1 }, { B2, B2, B2 }, { C2, B2, B2 }, { S2, B1, B2 }, { C3, C2, B1 } } : L{ { B2, B1, B1 }, { S2, B1, B2 } };
  const std::vector<A<3>> cs = std::vector<A<3>>{ { 0, 0, 0 }, { 0.5, 0.5, 0.5 }, { 0.5, 0, 1 }, { 1.5, 0.4, 0.8 } };
  std::vector<Dom<3>> all_;
  const auto put = [&](const std::vector<Dom<3>> &v) { all_.insert(all_.end(), v.begin(), v.end()); };
  put(planes<3>(vf::thorough ? std::vector<double>{ -1, 0, 1, 2 } : std::vector<double>{ -1, 0, 2 }, { 0.5, 0.6 }));
  put(spheres<3>({ 0.4, 1.0 }, cs));
  put(ellipsoids<3>({ { 0.3, 0.8, 0.5 } }, cs));
  put(linears<3>({ -1, 0.5, 2 }, vf::thorough ? 211 : 1601));
  put(solids(cs));
  const auto m = all_.size();
  for (std::size_t i = 0; i < m; i += vf::thorough ? 4 : 9) all_.push_back(negate<3>(all_[i]));
  if (vf::thorough) {
    over<3>(all_, { gs[0], gs[3] }, { 1, 2, 3, 4 });
    over<3>(all_, { gs[1], gs[2], gs[4] }, { 2, 3 });
  } else
    over<3>(all_, gs, { 1, 2, 3, 4 });
  slabs<3>(vf::thorough ? L{ { B1, B1, B1 }, { B2, B2, B2 }, { C2, B1, B2 } } : L{ { C2, B1, B1 } }, vf::thorough ? std::vector<int>{ 1, 2, 3 } : std::vector<int>{ 2 });
}
}// namespace
void run()
{
  two();
  three();
  calibration();
}
