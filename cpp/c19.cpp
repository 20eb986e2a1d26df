#include "lines.hpp"
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <qugar/impl_reparam.hpp>
#include <qugar/impl_reparam_bezier.hpp>
#include <qugar/impl_reparam_general.hpp>
#include <qugar/impl_reparam_mesh.hpp>
#include <qugar/reparam_mesh.hpp>
namespace {
using namespace doms;
template<int d> using U = UnfittedImplDomain<d>;
template<int d> using FP = std::shared_ptr<const ImplicitFunc<d>>;
using Ids = std::vector<std::int64_t>;
using Ix = std::vector<std::size_t>;
template<int d> A<d> arr(const Point<d> &p)
{
  A<d> r{};
  for (int i = 0; i < d; ++i) r[i] = p(i);
  return r;
}
template<int d> double dist(const A<d> &a, const A<d> &b)
{
  double s = 0;
  for (int i = 0; i < d; ++i) s = std::max(s, std::abs(a[i] - b[i]));
  return s;
}
int ipow(int a, int b) { return b == 0 ? 1 : a * ipow(a, b - 1); }
// ---- Lagrange cells: nodes, and Gauss points that integrate their Jacobians
struct Line
{
  int n = 0, q = 0;
  std::vector<double> x, w, gx;// nodes; weights and abscissae of Gauss
  std::vector<std::vector<double>> v, dv;// [point][node], the last point being the middle
};
double legendre(int n, double x, double &d)
{
  double a = 1, b = x;
  for (int k = 2; k <= n; ++k) {
    const double c = ((2 * k - 1) * x * b - (k - 1) * a) / k;
    a = b;
    b = c;
  }
  d = n * (x * b - a) / (x * x - 1);
  return b;
}
const Line &line_of(int n)
{
  static std::map<int, Line> all_;
  auto &L = all_[n];
  if (L.n) return L;
  L.n = n;
  L.q = std::max(4, (3 * n) / 2 + 1);
  const double pi = std::acos(-1.0);
  for (int i = 0; i < n; ++i) L.x.push_back(ReparamMesh<2, 2>::use_Chebyshev(n) ? 0.5 - 0.5 * std::cos(pi * (2 * i + 1) / (2.0 * n)) / std::cos(pi / (2.0 * n)) : i / (n - 1.0));
  for (int i = 0; i < L.q; ++i) {
    double t = std::cos(pi * (i + 0.75) / (L.q + 0.5)), d = 0;
    for (int k = 0; k < 60; ++k) t -= legendre(L.q, t, d) / d;
    legendre(L.q, t, d);
    L.gx.push_back(0.5 + 0.5 * t);
    L.w.push_back(1 / ((1 - t * t) * d * d));
  }
  auto pts = L.gx;
  pts.push_back(0.5);
  for (const double t : pts) {
    std::vector<double> v, dv;
    for (int i = 0; i < n; ++i) {
      double p = 1, s = 0;
      for (int j = 0; j < n; ++j)
        if (j != i) p *= (t - L.x[static_cast<std::size_t>(j)]) / (L.x[static_cast<std::size_t>(i)] - L.x[static_cast<std::size_t>(j)]);
      for (int k = 0; k < n; ++k) {
        if (k == i) continue;
        double m = 1 / (L.x[static_cast<std::size_t>(i)] - L.x[static_cast<std::size_t>(k)]);
        for (int j = 0; j < n; ++j)
          if (j != i && j != k) m *= (t - L.x[static_cast<std::size_t>(j)]) / (L.x[static_cast<std::size_t>(i)] - L.x[static_cast<std::size_t>(j)]);
        s += m;
      }
      v.push_back(p);
      dv.push_back(s);
    }
    L.v.push_back(v);
    L.dv.push_back(dv);
  }
  return L;
}
template<int p> std::array<int, p> digits(int k, int n)
{
  std::array<int, p> r;
  for (int i = 0; i < p; ++i) {
    r[i] = k % n;
    k /= n;
  }
  return r;
}
template<int p, int d> struct At
{
  A<d> x{};
  std::array<A<d>, p> j{};
};
template<int p, int d> At<p, d> eval(const Line &L, const std::vector<A<d>> &nodes, const std::array<int, p> &q)
{
  At<p, d> r;
  for (std::size_t k = 0; k < nodes.size(); ++k) {
    const auto t = digits<p>(static_cast<int>(k), L.n);
    for (int g = -1; g < p; ++g) {
      double w = 1;
      for (int i = 0; i < p; ++i) w *= (i == g ? L.dv : L.v)[static_cast<std::size_t>(q[i])][static_cast<std::size_t>(t[i])];
      for (int i = 0; i < d; ++i) (g < 0 ? r.x : r.j[g])[i] += w * nodes[k][i];
    }
  }
  return r;
}
template<int d> double det(const std::array<A<d>, d> &j)
{
  if constexpr (d == 2)
    return j[0][0] * j[1][1] - j[0][1] * j[1][0];
  else
    return j[0][0] * (j[1][1] * j[2][2] - j[1][2] * j[2][1]) - j[0][1] * (j[1][0] * j[2][2] - j[1][2] * j[2][0]) + j[0][2] * (j[1][0] * j[2][1] - j[1][1] * j[2][0]);
}
template<int d> A<d> normal_of(const std::array<A<d>, d - 1> &j)
{
  if constexpr (d == 2)
    return { j[0][1], -j[0][0] };
  else
    return { j[0][1] * j[1][2] - j[0][2] * j[1][1], j[0][2] * j[1][0] - j[0][0] * j[1][2], j[0][0] * j[1][1] - j[0][1] * j[1][0] };
}
// measure of a cell, or the integral of its normal; what it is at its middle
template<int p, int d> struct Cell
{
  double size = 0, absolute = 0, mid = 0;
  A<d> flux{}, center{}, mid_normal{};
};
template<int p, int d> Cell<p, d> measure(const Line &L, const std::vector<A<d>> &nodes)
{
  Cell<p, d> r;
  for (int k = 0; k < ipow(L.q, p); ++k) {
    const auto q = digits<p>(k, L.q);
    const auto e = eval<p, d>(L, nodes, q);
    double w = 1;
    for (int i = 0; i < p; ++i) w *= L.w[static_cast<std::size_t>(q[i])];
    if constexpr (p == d) {
      const double v = det<d>(e.j);
      r.size += w * v;
      r.absolute += w * std::abs(v);
    } else {
      const auto n = normal_of<d>(e.j);
      r.size += w * norm_of<d>(n);
      for (int i = 0; i < d; ++i) r.flux[i] += w * n[i];
    }
  }
  std::array<int, p> q;
  q.fill(L.q);
  const auto e = eval<p, d>(L, nodes, q);
  r.center = e.x;
  if constexpr (p == d)
    r.mid = det<d>(e.j);
  else
    r.mid_normal = normal_of<d>(e.j);
  return r;
}
// ---- meshes
template<int p, int d> struct M
{
  int n = 0;// points per direction
  std::size_t npc = 0, nc = 0;
  std::vector<A<d>> pts;
  Ix con, wires;
  std::vector<A<d>> cell(std::size_t c) const
  {
    std::vector<A<d>> r;
    for (std::size_t k = 0; k < npc; ++k) r.push_back(pts[con[c * npc + k]]);
    return r;
  }
  // the edges of a cell
  std::vector<Ix> edges(std::size_t c) const
  {
    std::vector<Ix> r;
    if constexpr (p > 1)
      for (int dir = 0; dir < p; ++dir)
        for (int s = 0; s < ipow(2, p - 1); ++s) {
          const auto side = digits<p>(s, 2);
          Ix e;
          for (int k = 0; k < n; ++k) {
            int at_ = 0, st = 1, b = 0;
            for (int i = 0; i < p; ++i) {
              at_ += st * (i == dir ? k : side[static_cast<std::size_t>(b++)] * (n - 1));
              st *= n;
            }
            e.push_back(con[c * npc + static_cast<std::size_t>(at_)]);
          }
          r.push_back(e);
        }
    return r;
  }
};
Ix oriented(const Ix &e)
{
  Ix r(e.rbegin(), e.rend());
  return std::min(r, e);
}
template<int p, int d> bool take(const ReparamMesh<p, d> &m, int n, M<p, d> &r)
{
  r.n = n;
  r.npc = static_cast<std::size_t>(ipow(n, p));
  r.con = m.get_connectivity();
  r.wires = m.get_wires_connectivity();
  r.pts.clear();
  for (const auto &x : m.get_points()) r.pts.push_back(arr<d>(x));
  if (!vf::check(m.get_order() == n, "order ", m.get_order())) return false;
  if (!vf::check(m.get_num_points_per_cell() == r.npc, m.get_num_points_per_cell(), " points per cell")) return false;
  if (!vf::check(r.con.size() % r.npc == 0, "connectivity of ", r.con.size(), " points for cells of ", r.npc)) return false;
  r.nc = r.con.size() / r.npc;
  if (!vf::check(m.get_num_cells() == r.nc && m.get_num_points() == r.pts.size(), "numbers of cells or points: ", m.get_num_cells(), ", ", m.get_num_points())) return false;
  std::vector<char> used(r.pts.size());
  for (const auto k : r.con) {
    if (!vf::check(k < r.pts.size(), "point ", k, " of ", r.pts.size(), " in a cell")) return false;
    used[k] = 1;
  }
  if (!vf::check(std::count(used.begin(), used.end(), 1) == static_cast<std::ptrdiff_t>(used.size()), "points that belong to no cell")) return false;
  if (!vf::check(r.wires.size() % static_cast<std::size_t>(n) == 0, "wirebasket of ", r.wires.size(), " points")) return false;
  for (const auto k : r.wires)
    if (!vf::check(k < r.pts.size(), "point ", k, " of ", r.pts.size(), " in an edge")) return false;
  for (const auto &x : r.pts)
    for (const auto v : x)
      if (!vf::check(std::isfinite(v), "point at ", v)) return false;
  return true;
}
template<int d> bool crowded(const std::vector<A<d>> &pts, double tol, std::string &msg)
{
  std::vector<std::size_t> ix(pts.size());
  for (std::size_t i = 0; i < ix.size(); ++i) ix[i] = i;
  std::sort(ix.begin(), ix.end(), [&](std::size_t a, std::size_t b) { return pts[a][0] < pts[b][0]; });
  for (std::size_t i = 0; i < ix.size(); ++i)
    for (std::size_t j = i + 1; j < ix.size() && pts[ix[j]][0] - pts[ix[i]][0] < tol; ++j)
      if (dist<d>(pts[ix[i]], pts[ix[j]]) < tol) {
        msg = vf::str("points ", ix[i], " and ", ix[j], " coincide at ", pt<d>(pts[ix[i]]));
        return true;
      }
  return false;
}
// the merged mesh is the same one but for its points being unique
template<int p, int d> bool merged_like(const M<p, d> &raw, const M<p, d> &m)
{
  if (!vf::check(m.nc == raw.nc, m.nc, " cells instead of ", raw.nc, " after merging")) return false;
  std::string s;
  if (!vf::check(!crowded<d>(m.pts, 2e-13, s), s)) return false;
  for (std::size_t k = 0; k < m.con.size(); ++k)
    if (!vf::check(dist<d>(m.pts[m.con[k]], raw.pts[raw.con[k]]) < 1e-11, "point ", k % m.npc, " of cell ", k / m.npc, " moved from ", pt<d>(raw.pts[raw.con[k]]), " to ", pt<d>(m.pts[m.con[k]]), " by merging")) return false;
  // the edges, once each. Edges of the same points are the same one.
  std::map<std::size_t, std::size_t> map_;
  for (std::size_t k = 0; k < m.con.size(); ++k) map_[raw.con[k]] = m.con[k];
  std::map<Ix, int> want_, got;
  const auto n = static_cast<std::size_t>(m.n);
  for (std::size_t k = 0; k < raw.wires.size(); k += n) {
    Ix e;
    for (std::size_t i = 0; i < n; ++i) e.push_back(map_[raw.wires[k + i]]);
    want_[oriented(e)] = 1;
  }
  for (std::size_t k = 0; k < m.wires.size(); k += n) ++got[oriented(Ix(m.wires.begin() + static_cast<std::ptrdiff_t>(k), m.wires.begin() + static_cast<std::ptrdiff_t>(k + n)))];
  for (const auto &[e, c] : got) {
    if (!vf::check(c == 1, "edge from ", pt<d>(m.pts[e.front()]), " to ", pt<d>(m.pts[e.back()]), " ", c, " times in the wirebasket")) return false;
    if (!vf::check(want_.count(e) == 1, "edge from ", pt<d>(m.pts[e.front()]), " to ", pt<d>(m.pts[e.back()]), " comes from nowhere")) return false;
  }
  for (const auto &[e, c] : want_)
    if (!vf::check(got.count(e) == 1, "edge from ", pt<d>(m.pts[e.front()]), " to ", pt<d>(m.pts[e.back()]), " lost by merging")) return false;
  return true;
}
// The numbers of sides of a box where all of some points are
template<int d> int common_sides(const Box<d> &b, const std::vector<A<d>> &e, double tol)
{
  int r = 0;
  for (int i = 0; i < d; ++i)
    for (const double v : { b.lo[i], b.hi[i] }) {
      bool all_ = true;
      for (const auto &x : e) all_ &= std::abs(x[i] - v) <= tol;
      r += all_;
    }
  return r;
}
template<int p, int d> bool wirebasket(const Dom<d> &D, const Box<d> &b, const M<p, d> &m, const std::string &of, bool full)
{
  std::map<Ix, int> edges;
  std::set<Ix> expected;
  const auto at_ = [&](const Ix &e) {
    std::vector<A<d>> r;
    for (const auto k : e) r.push_back(m.pts[k]);
    return r;
  };
  const auto on = [&](const std::vector<A<d>> &e, double tol) {
    for (const auto &x : e)
      if (std::abs(static_cast<double>(D.val(x))) > tol) return false;
    return true;
  };
  for (std::size_t c = 0; c < m.nc; ++c)
    for (const auto &e : m.edges(c)) {
      const auto x = at_(e);
      double len = 0;
      for (const auto &q : x) len = std::max(len, dist<d>(q, x[0]));
      const bool loose = len > 1e-13 && (common_sides<d>(b, x, 1e-8) >= d - 1 || (common_sides<d>(b, x, 1e-8) >= (d == 2 ? 0 : 1) && on(x, 1e-7)));
      const bool strict = len > 1e-9 && (common_sides<d>(b, x, 0) >= d - 1 || (common_sides<d>(b, x, 0) >= (d == 2 ? 0 : 1) && on(x, 1e-15)));
      const auto o = oriented(e);
      edges[o] = loose;
      if (strict || full) expected.insert(o);
    }
  const auto n = static_cast<std::size_t>(m.n);
  std::set<Ix> got;
  for (std::size_t k = 0; k < m.wires.size(); k += n) {
    const auto e = oriented(Ix(m.wires.begin() + static_cast<std::ptrdiff_t>(k), m.wires.begin() + static_cast<std::ptrdiff_t>(k + n)));
    const auto it = edges.find(e);
    const auto what = [&] { return vf::str("wire from ", pt<d>(m.pts[e.front()]), " to ", pt<d>(m.pts[e.back()]), " in ", of); };
    if (!vf::check(it != edges.end(), what(), " is not an edge of any cell")) return false;
    if (!vf::check(it->second == 1, what(), " is neither in an edge of the cell nor in the boundary")) return false;
    if (!vf::check(got.insert(e).second, what(), " is repeated")) return false;
  }
  for (const auto &e : expected)
    if (!vf::check(got.count(e) == 1, "edge from ", pt<d>(m.pts[e.front()]), " to ", pt<d>(m.pts[e.back()]), " of ", of, " is not in the wirebasket")) return false;
  return true;
}
template<int d, bool S> std::shared_ptr<const ReparamMesh<S ? d - 1 : d, d>> mesh(const U<d> &u, const Ids &cells, int n, bool merge)
{
  const UnfittedDomain<d> &base = u;
  return qugar::create_reparameterization<d, S>(base, cells, n, merge);
}
template<int p, int d> bool same(const ReparamMesh<p, d> &a, const ReparamMesh<p, d> &b)
{
  if (a.get_connectivity() != b.get_connectivity() || a.get_wires_connectivity() != b.get_wires_connectivity() || a.get_num_points() != b.get_num_points()) return false;
  for (std::size_t i = 0; i < a.get_num_points(); ++i)
    if (arr<d>(a.get_points()[i]) != arr<d>(b.get_points()[i])) return false;
  return true;
}
// How far curved elements may be from what they interpolate
template<int d> double tolerance(const Dom<d> &D, int n, bool bound)
{
  if (D.kind == 1) return d == 2 ? 0.005 : 0.04;// of the reference
  if (n >= 7) return 0.015;
  if (n >= 5) return bound ? 0.02 : 0.01;
  if (d == 3 || D.crossing) return bound ? (n == 3 ? 0.12 : 0.1) : n == 3 ? 0.06 : 0.04;
  return bound ? (n == 3 ? 0.1 : 0.06) : n == 3 ? 0.05 : 0.03;
}
// elements (or wires) with the positions of their nodes, sorted
template<int p, int d> std::vector<std::vector<A<d>>> signature(const M<p, d> &q, bool wires)
{
  std::vector<std::vector<A<d>>> r;
  if (wires)
    for (std::size_t k = 0; k < q.wires.size(); k += static_cast<std::size_t>(q.n)) {
      std::vector<A<d>> e;
      for (int i = 0; i < q.n; ++i) e.push_back(q.pts[q.wires[k + static_cast<std::size_t>(i)]]);
      r.push_back(e);
    }
  else
    for (std::size_t c = 0; c < q.nc; ++c) r.push_back(q.cell(c));
  std::sort(r.begin(), r.end());
  return r;
}
// the mesh of one box, asked for directly: that of the cell when it is cut, all or nothing otherwise
template<int d, bool S> bool direct(const Dom<d> &D, const Box<d> &b, int n, const M<S ? d - 1 : d, d> &m, bool full, bool cut, const std::string &of)
{
  constexpr int p = S ? d - 1 : d;
  const auto *z = dynamic_cast<const BezierTP<d, 1> *>(D.f.get());
  if (!cut && !z) return true;// no bound on what the subdivisions of the general algorithm cost there
  std::array<real, d> lo, hi;
  for (int i = 0; i < d; ++i) {
    lo[i] = b.lo[i];
    hi[i] = b.hi[i];
  }
  const BoundBox<d> box(lo, hi);
  std::shared_ptr<ImplReparamMesh<p, d>> got;
  if (z) {
    BezierTP<d> local(*z);
    local.rescale_domain(box);
    got = reparam_Bezier<d, S>(local, box, n);
  } else
    got = reparam_general<d, S>(*D.f, box, n);
  M<p, d> g;
  if (!take<p, d>(*got, n, g)) return false;
  if (cut) {
    for (const bool w : { false, true })
      if (!vf::check(signature<p, d>(g, w) == signature<p, d>(m, w), w ? "wirebasket" : "elements", " of the box of ", of, " asked for directly differ")) return false;
    if (!z) {// the wirebasket again: that of all the cells, appended
      got->generate_wirebasket({ *D.f }, box, Tolerance(1.0e4 * numbers::eps));
      const auto w = g.wires;
      if (!take<p, d>(*got, n, g)) return false;
      auto twice = w;
      twice.insert(twice.end(), w.begin(), w.end());
      return vf::check(g.wires == twice, "the wirebasket of all the elements of ", of, " is not that of its elements: ", g.wires.size() - w.size(), " points and ", w.size());
    }
    return true;
  }
  for (int f = 0; f < 2 * d; ++f)
    if (D.touch(facet_of<d>(b, f))) return true;
  double size = 0, V = S ? 0 : full ? 1 : 0;
  for (std::size_t k = 0; k < g.nc; ++k) size += measure<p, d>(line_of(n), g.cell(k)).size;
  for (int i = 0; i < d; ++i) V *= b.hi[i] - b.lo[i];
  return vf::check(std::abs(size - V) < 1e-9, "the box of ", of, " asked for directly has ", g.nc, " elements that measure ", size, " instead of ", V);
}
template<int d, bool S> void one(const Dom<d> &D, const Grid<d> &G, int n)
{
  constexpr int p = S ? d - 1 : d;
  if (!vf::want(vf::str(S ? "boundary " : "interior ", d, "D"), vf::str(S ? "boundary of " : "", D.name, G.name, " with ", n, " points"))) return;
  vf::guarded([&] {
    const U<d> u(D.f, G.g);
    const auto &L = line_of(n);
    const std::string fam = family(D) + vf::str(S ? "bnd " : "vol ", n);
    const bool smooth = !D.flat && !D.rough && !D.crossing;
    Ids cells;
    std::size_t total = 0;
    double whole = 0;
    bool any = false;
    ReparamMesh<p, d> sum(n);
    for (int c = 0; c < G.n(); ++c) {
      cells.push_back(c);
      const auto b = G.cell(c);
      const bool full = u.is_full_cell(c), cut = u.is_cut_cell(c);
      const auto of = vf::str(full ? "full cell " : cut ? "cut cell " : "empty cell ", c);
      const auto raw = mesh<d, S>(u, { c }, n, false);
      sum.merge(*raw);
      M<p, d> m;
      if (!take<p, d>(*raw, n, m)) return;
      any |= cut && m.nc > 0;
      total += m.nc;
      if (!vf::check(m.pts.size() == m.con.size(), m.pts.size(), " points for ", m.con.size(), " in cells before merging")) return;
      if (!cut && (S || !full) && !vf::check(m.nc == 0, m.nc, " elements for ", of)) return;
      if (!S && full && !vf::check(m.nc == 1, m.nc, " elements for ", of)) return;
      if (!direct<d, S>(D, b, n, m, full, cut, of)) return;
      double V = 1, H = 0;
      for (int i = 0; i < d; ++i) {
        V *= b.hi[i] - b.lo[i];
        H = std::max(H, b.hi[i] - b.lo[i]);
      }
      for (const auto &x : m.pts) {
        for (int i = 0; i < d; ++i)
          if (!vf::check(x[i] >= b.lo[i] - 1e-12 && x[i] <= b.hi[i] + 1e-12, "point ", pt<d>(x), " out of ", of)) return;
        const double v = static_cast<double>(D.val(x));
        if (full || !smooth) continue;
        if (!within(S ? std::abs(v) : std::max(v, 0.0), 1e-7, fam + " point", vf::str("point ", pt<d>(x), " of ", of, " out of the ", S ? "boundary" : "domain"))) return;
      }
      double size = 0, absolute = 0;
      A<d> flux{};
      for (std::size_t k = 0; k < m.nc; ++k) {
        const auto e = measure<p, d>(L, m.cell(k));
        size += e.size;
        absolute += e.absolute;
        for (int i = 0; i < d; ++i) flux[i] += e.flux[i];
        if constexpr (!S) {
          if (!vf::check(e.mid >= -1e-9 * V, "element ", k, " of ", of, " negatively oriented: ", e.mid)) return;
        } else {
          const auto g = slope<d>(D, e.center);
          double s = 0;
          for (int i = 0; i < d; ++i) s += g[i] * e.mid_normal[i];
          if (smooth && !vf::check(s >= -1e-6 * norm_of<d>(g) * norm_of<d>(e.mid_normal) - 1e-12, "element ", k, " of ", of, " points inwards: ", s)) return;
        }
      }
      whole += size;
      if (!wirebasket<p, d>(D, b, m, of, full)) return;
      const auto ref = full ? Ref<d>{ V, 0, {}, {} } : !cut ? Ref<d>{} : reference<d>(D, b, all_dirs<d>(), d == 2 ? 600 : 64);
      // measures, unless the boundary touches the cell tangentially or is too curved for linear elements
      bool touched = n == 2 && D.kind != 1;
      for (int f = 0; f < 2 * d; ++f) touched |= (D.curved || D.flat || D.rough || D.crossing) && D.touch(facet_of<d>(b, f));
      if (cut && touched) continue;
      const bool exact = D.kind == 1;
      if constexpr (!S) {
        if (!within(std::abs(size - ref.vol) / V, tolerance<d>(D, n, S), fam + " vol", vf::str("measure of ", of, ": ", size, " instead of ", ref.vol))) return;
        if (!within(std::abs(size - absolute) / V, exact ? 1e-9 : 0.02, fam + " fold", vf::str("folded elements in ", of, ": ", size, " of ", absolute))) return;
      } else if (smooth) {
        if (!within(std::abs(size - ref.area) * H / V, tolerance<d>(D, n, S), fam + " area", vf::str("boundary in ", of, ": ", size, " instead of ", ref.area))) return;
        for (int i = 0; i < d; ++i)
          if (!within(std::abs(flux[i] - ref.flux[i]) * H / V, tolerance<d>(D, n, S), fam + " flux", vf::str("normal in ", of, " along ", i, ": ", flux[i], " instead of ", ref.flux[i]))) return;
      }
    }
    // all the cells at once, in any order
    const auto raw = mesh<d, S>(u, cells, n, false);
    M<p, d> m, um, s;
    if (!take<p, d>(*raw, n, m) || !vf::check(m.nc == total, m.nc, " elements instead of ", total, ", those of the cells")) return;
    if (!take<p, d>(sum, n, s)) return;
    {
      for (const bool w : { false, true })
        if (!vf::check(signature<p, d>(m, w) == signature<p, d>(s, w), w ? "wirebaskets" : "elements", " of all the cells are not those of every cell")) return;
    }
    const UnfittedDomain<d> &base = u;
    if (!vf::check(same<p, d>(*raw, *qugar::create_reparameterization<d, S>(base, n, false)), "the mesh of the domain is not the one of all its cells")) return;
    Ids back(cells.rbegin(), cells.rend());
    if (!vf::check(same<p, d>(*raw, *mesh<d, S>(u, back, n, false)), "the mesh depends on the order of the cells")) return;
    const auto um_ = mesh<d, S>(u, cells, n, true);
    if (!take<p, d>(*um_, n, um) || !merged_like<p, d>(m, um)) return;
    if (!vf::check(same<p, d>(*um_, *qugar::create_reparameterization<d, S>(base, n, true)), "the merged mesh of the domain is not the one of all its cells")) return;
    if (!take<p, d>(*mesh<d, S>(u, {}, n, true), n, s) || !vf::check(s.nc == 0 && s.pts.empty() && s.wires.empty(), "elements without cells")) return;
    if (any) vf::nontrivial();
  });
}
// ---- facets
template<int d> void facets(const Dom<d> &D, const Grid<d> &G, int n)
{
  if (!vf::want(vf::str("facets ", d, "D"), vf::str("facets of ", D.name, G.name, " with ", n, " points"))) return;
  vf::guarded([&] {
    const auto &L = line_of(n);
    for (int c = 0; c < G.n(); ++c)
      for (int f = 0; f < 2 * d; ++f) {
        const auto b = G.cell(c);
        const auto fb = facet_of<d>(b, f);
        const auto of = vf::str("facet ", f, " of cell ", c);
        if (D.touch(fb)) continue;
        const Cat q = D.cat(fb);
        if (q == zero) continue;
        std::array<real, d> lo, hi;
        double V = 1, H = 0;
        for (int i = 0; i < d; ++i) {
          lo[i] = b.lo[i];
          hi[i] = b.hi[i];
          if (i != f / 2) V *= b.hi[i] - b.lo[i];
          H = std::max(H, b.hi[i] - b.lo[i]);
        }
        const auto got = reparam_general_facet<d>(*D.f, BoundBox<d>(lo, hi), f, n);
        M<d - 1, d> m, turned;
        if (!take<d - 1, d>(*got, n, m)) return;
        for (std::size_t k = 0; k < m.nc; k += 2) got->permute_cell_directions(k);
        got->orient_facet_cells_positively(f);
        if (!take<d - 1, d>(*got, n, turned)) return;
        for (std::size_t k = 0; k < m.nc; ++k)
          if (std::abs(measure<d - 1, d>(L, m.cell(k)).mid_normal[f / 2]) > 1e-9 * (d == 2 ? 1 : 1e-3) && !vf::check(turned.cell(k) == m.cell(k), "element ", k, " of ", of, " is not turned back")) return;
        got->orient_facet_cells_positively(f % 2 ? f - 1 : f + 1);
        if (!take<d - 1, d>(*got, n, turned)) return;
        for (std::size_t k = 0; k < m.nc; ++k)
          if (std::abs(measure<d - 1, d>(L, m.cell(k)).mid_normal[f / 2]) > 1e-9 * (d == 2 ? 1 : 1e-3) && !vf::check(turned.cell(k) != m.cell(k), "element ", k, " of ", of, " is not turned for the opposite facet")) return;
        double size = 0;
        for (std::size_t k = 0; k < m.nc; ++k) {
          const auto e = measure<d - 1, d>(L, m.cell(k));
          size += e.size;
          if (!vf::check((f % 2 ? 1 : -1) * e.mid_normal[f / 2] >= -1e-9 * V, "element ", k, " of ", of, " points inwards: ", e.mid_normal[f / 2])) return;
        }
        for (const auto &x : m.pts) {
          if (!vf::check(std::abs(x[f / 2] - fb.lo[f / 2]) < 1e-12, "point ", pt<d>(x), " out of ", of)) return;
          for (int i = 0; i < d; ++i)
            if (!vf::check(x[i] >= b.lo[i] - 1e-12 && x[i] <= b.hi[i] + 1e-12, "point ", pt<d>(x), " out of ", of)) return;
          if (!vf::check(static_cast<double>(D.val(x)) < 1e-7, "point ", pt<d>(x), " of ", of, " out of the domain")) return;
        }
        std::map<Ix, int> edges;
        for (std::size_t k = 0; k < m.nc; ++k)
          for (const auto &e : m.edges(k)) edges[oriented(e)] = 1;
        for (std::size_t k = 0; k < m.wires.size(); k += static_cast<std::size_t>(n))
          if (!vf::check(edges.count(oriented(Ix(m.wires.begin() + static_cast<std::ptrdiff_t>(k), m.wires.begin() + static_cast<std::ptrdiff_t>(k) + n))) == 1, "wire ", k, " of ", of, " is not an edge of any element")) return;
        const double w = q == inside ? V : q == none ? 0 : reference<d>(D, fb, all_dirs<d>(f / 2), d == 2 ? 1 : 400).vol;
        const double t = d == 2 ? 1e-9 : n == 2 && D.kind != 1 ? 1e9 : tolerance<d>(D, n, false);
        if (!within(std::abs(size - w) / V, t, family(D) + "fct " + vf::str(n), vf::str("measure of ", of, ": ", size, " instead of ", w))) return;
      }
    vf::nontrivial();
  });
}
// ---- operations on meshes
template<int d> BoundBox<d> bbox(const A<d> &lo, const A<d> &hi)
{
  std::array<real, d> a, b;
  for (int i = 0; i < d; ++i) {
    a[i] = lo[i];
    b[i] = hi[i];
  }
  return BoundBox<d>(a, b);
}
// where the point (i, j, k) of a Lagrange cell is in VTK files of version 0.1 (as of vtkLagrangeHexahedron)
int vtk_index(const std::array<int, 3> &t, int n, int dim)
{
  const int o = n - 1, m = n - 2;
  const auto [i, j, k] = t;
  const bool bi = i == 0 || i == o, bj = j == 0 || j == o, bk = k == 0 || k == o;
  if (dim == 1) return i == 0 ? 0 : i == o ? 1 : i + 1;
  if (dim == 2) {
    if (bi && bj) return i ? (j ? 2 : 1) : (j ? 3 : 0);
    if (!bi && bj) return (i - 1) + (j ? 2 * m : 0) + 4;
    if (bi) return (j - 1) + (i ? m : 3 * m) + 4;
    return 4 + 4 * m + (i - 1) + m * (j - 1);
  }
  const int nb = bi + bj + bk;
  if (nb == 3) return (i ? (j ? 2 : 1) : (j ? 3 : 0)) + (k ? 4 : 0);
  if (nb == 2) {
    if (!bi) return (i - 1) + (j ? 2 * m : 0) + (k ? 4 * m : 0) + 8;
    if (!bj) return (j - 1) + (i ? m : 3 * m) + (k ? 4 * m : 0) + 8;
    return (k - 1) + m * (i ? (j ? 3 : 1) : (j ? 2 : 0)) + 8 + 8 * m;
  }
  int off = 8 + 12 * m;
  if (nb == 1) {
    if (bi) return (j - 1) + m * (k - 1) + (i ? m * m : 0) + off;
    off += 2 * m * m;
    if (bj) return (i - 1) + m * (k - 1) + (j ? m * m : 0) + off;
    off += 2 * m * m;
    return (i - 1) + m * (j - 1) + (k ? m * m : 0) + off;
  }
  return off + 6 * m * m + (i - 1) + m * ((j - 1) + m * (k - 1));
}
std::string slurp(const std::filesystem::path &p)
{
  std::ifstream f(p);
  std::stringstream s;
  s << f.rdbuf();
  return s.str();
}
// the contents of the DataArray of a name
std::vector<double> array_of(const std::string &text, const std::string &name)
{
  std::vector<double> r;
  auto a = text.find("Name=\"" + name + "\"");
  if (a == std::string::npos) return r;
  a = text.find('>', a) + 1;
  std::istringstream s(text.substr(a, text.find('<', a) - a));
  for (double v; s >> v;) r.push_back(v);
  return r;
}
double attribute(const std::string &text, const std::string &name)
{
  const auto a = text.find(name + "=\"");
  return a == std::string::npos ? -1 : std::atof(text.c_str() + a + name.size() + 2);
}
template<int p, int d> bool vtu(const std::filesystem::path &file, int n, const std::vector<A<d>> &pts, const Ix &con)
{
  const auto text = slurp(file);
  const auto name = file.filename().string();
  if (!vf::check(!text.empty(), "no file ", name)) return false;
  const auto npc = static_cast<std::size_t>(ipow(n, p));
  const auto nc = con.size() / npc;
  if (!vf::check(text.find("version=\"0.1\"") != std::string::npos && text.find("UnstructuredGrid") != std::string::npos, "type or version of ", name)) return false;
  if (!vf::check(attribute(text, "NumberOfPoints") == static_cast<double>(pts.size()) && attribute(text, "NumberOfCells") == static_cast<double>(nc), "numbers of points and cells in ", name)) return false;
  const auto x = array_of(text, "Points");
  if (!vf::check(x.size() == 3 * pts.size(), x.size(), " coordinates in ", name)) return false;
  for (std::size_t k = 0; k < x.size(); ++k)
    if (!vf::check(x[k] == (k % 3 < d ? pts[k / 3][k % 3] : 0), "coordinate ", k % 3, " of point ", k / 3, " in ", name, ": ", x[k])) return false;
  const auto c = array_of(text, "connectivity"), o = array_of(text, "offsets"), t = array_of(text, "types");
  if (!vf::check(c.size() == con.size() && o.size() == nc && t.size() == nc, "sizes of the arrays of cells in ", name)) return false;
  const int type = n == 2 ? std::array<int, 3>{ 3, 9, 12 }[p - 1] : std::array<int, 3>{ 68, 70, 72 }[p - 1];
  for (std::size_t e = 0; e < nc; ++e) {
    if (!vf::check(o[e] == static_cast<double>((e + 1) * npc) && t[e] == type, "cell ", e, " of ", name, " has type ", t[e], " and offset ", o[e])) return false;
    for (std::size_t k = 0; k < npc; ++k) {
      const auto q = digits<p>(static_cast<int>(k), n);
      std::array<int, 3> ijk{};
      for (int i = 0; i < p; ++i) ijk[static_cast<std::size_t>(i)] = q[i];
      const auto at_ = static_cast<std::size_t>(vtk_index(ijk, n, p));
      if (!vf::check(c[e * npc + at_] == static_cast<double>(con[e * npc + k]), "point ", at_, " of cell ", e, " of ", name, ": ", c[e * npc + at_], " instead of ", con[e * npc + k])) return false;
    }
  }
  return true;
}
template<int d, bool S> void operations(const Dom<d> &D, const Grid<d> &G, int n)
{
  constexpr int p = S ? d - 1 : d;
  if (!vf::want(vf::str("operations ", d, "D"), vf::str("operations on ", S ? "the boundary of " : "", D.name, G.name, " with ", n, " points"))) return;
  vf::guarded([&] {
    const U<d> u(D.f, G.g);
    const UnfittedDomain<d> &base = u;
    const auto src = qugar::create_reparameterization<d, S>(base, n, false);
    M<p, d> m0, m1;
    if (!take<p, d>(*src, n, m0)) return;
    // scaling of all the points, of some of them
    A<d> lo0, hi0, lo1, hi1;
    for (int i = 0; i < d; ++i) {
      lo0[i] = -0.5 + i;
      hi0[i] = 1.5 + 2 * i;
      lo1[i] = 3 - i;
      hi1[i] = 3.25 + i;
    }
    for (const int step : { 0, 1, 3 }) {
      ReparamMesh<p, d> m(n);
      m.merge(*src);
      std::vector<int> ids;
      for (int k = 0; step && k < static_cast<int>(m0.pts.size()); k += step) ids.push_back(k);
      if (step)
        m.scale_points(ids, bbox<d>(lo0, hi0), bbox<d>(lo1, hi1));
      else
        m.scale_points(bbox<d>(lo0, hi0), bbox<d>(lo1, hi1));
      if (!take<p, d>(m, n, m1)) return;
      if (!vf::check(m1.con == m0.con && m1.wires == m0.wires, "scaling changes the connectivity")) return;
      for (std::size_t k = 0; k < m0.pts.size(); ++k)
        for (int i = 0; i < d; ++i) {
          const double x = step == 3 && k % 3 ? m0.pts[k][i] : lo1[i] + (m0.pts[k][i] - lo0[i]) / (hi0[i] - lo0[i]) * (hi1[i] - lo1[i]);
          if (!vf::eq(m1.pts[k][i], x, 1e-13, "coordinate ", i, " of point ", k, " after scaling")) return;
        }
    }
    // merging with another mesh, whatever has been merged before
    {
      ReparamMesh<p, d> m(n);
      m.merge(*src);
      m.merge(*src);
      m.merge_coincident_points(Tolerance(1e-12));
      if (!take<p, d>(m, n, m1)) return;
      std::string s;
      if (!vf::check(m1.nc == 2 * m0.nc && !crowded<d>(m1.pts, 2e-13, s), "twice the same mesh: ", s)) return;
      const auto one_ = qugar::create_reparameterization<d, S>(base, n, true);
      if (!vf::check(m1.wires.size() == one_->get_wires_connectivity().size(), "twice the same wirebasket: ", m1.wires.size(), " points instead of ", one_->get_wires_connectivity().size())) return;
      for (std::size_t k = 0; k < m1.con.size(); ++k)
        if (!vf::check(m1.con[k] == m1.con[k % m0.con.size()] && dist<d>(m1.pts[m1.con[k]], m0.pts[m0.con[k % m0.con.size()]]) < 1e-11, "point ", k, " of the connectivity of twice the same mesh")) return;
    }
    // turning cells
    {
      ReparamMesh<p, d> m(n);
      m.merge(*src);
      for (std::size_t c = 0; c < m0.nc; c += 2) m.permute_cell_directions(c);
      if (!take<p, d>(m, n, m1)) return;
      const auto &L = line_of(n);
      for (std::size_t c = 0; c < m0.nc; ++c) {
        const auto a = m0.cell(c), b = m1.cell(c);
        auto x = a, y = b;
        std::sort(x.begin(), x.end());
        std::sort(y.begin(), y.end());
        if (!vf::check(x == y && (c % 2 == 0 || a == b), "points of cell ", c, " after turning it")) return;
        const auto e = measure<p, d>(L, a), f = measure<p, d>(L, b);
        const double g = c % 2 ? 1 : -1;
        if constexpr (p == d) {
          if (!vf::eq(f.size, g * e.size, 1e-11, "measure of cell ", c, " after turning it")) return;
        } else
          for (int i = 0; i < d; ++i)
            if (!vf::eq(f.flux[i], g * e.flux[i], 1e-11, "normal of cell ", c, " after turning it")) return;
      }
      if (!vf::check(m1.wires == m0.wires, "turning cells changes the wirebasket")) return;
    }
    // turned cells are turned back, all of them or those asked for
    for (const bool all_cells : { true, false }) {
      ImplReparamMesh<p, d> m(n);
      m.merge(*src);
      for (std::size_t c = 0; c < m0.nc; ++c)
        if (c % 2 == 0 || !all_cells) m.permute_cell_directions(c);
      std::vector<int> ids;
      for (int c = 0; c < static_cast<int>(m0.nc); c += 3) ids.push_back(c);
      std::reverse(ids.begin(), ids.end());
      if constexpr (p == d) {
        if (all_cells)
          m.orient_cells_positively();
        else
          m.orient_cells_positively(ids);
      } else {
        const std::vector<std::reference_wrapper<const ImplicitFunc<d>>> fs{ *D.f };
        if (all_cells)
          m.orient_levelset_cells_positively(fs);
        else
          m.orient_levelset_cells_positively(fs, ids);
      }
      if (!take<p, d>(m, n, m1)) return;
      if (!vf::check(m1.wires == m0.wires && m1.pts == m0.pts, "orienting cells changes more than their points")) return;
      const auto &L = line_of(n);
      for (std::size_t c = 0; c < m0.nc; ++c) {
        const auto e = measure<p, d>(L, m0.cell(c));
        const bool same_ = m1.cell(c) == m0.cell(c);
        if (!all_cells && c % 3) {
          if (!vf::check(!same_, "cell ", c, " is turned without being asked for")) return;
          continue;
        }
        if constexpr (p == d) {
          if (e.mid < 1e-9) continue;// no orientation
        } else {
          const auto g = slope<d>(D, e.center);
          double s = 0;
          for (int i = 0; i < d; ++i) s += g[i] * e.mid_normal[i];
          if (D.flat || D.rough || D.crossing || s < 1e-6) continue;
        }
        if (!vf::check(same_, "cell ", c, " is not turned back")) return;
      }
    }
    // files
    const auto dir = std::filesystem::temp_directory_path() / vf::str("qugar-c19-", getpid());
    const auto here = std::filesystem::current_path();
    std::filesystem::create_directories(dir / "sub");
    std::filesystem::current_path(dir);
    for (const std::string name : { std::string("mesh"), std::string("sub/other.name"), (dir / "absolute").string() }) {
      src->write_VTK_file(name);
      const std::filesystem::path base_ = std::filesystem::absolute(name);
      const auto text = slurp(base_.string() + ".vtmb");
      std::vector<std::filesystem::path> refs;
      for (auto a = text.find("file=\""); a != std::string::npos; a = text.find("file=\"", a + 1)) {
        const auto b = text.find('"', a + 6);
        const std::filesystem::path f = text.substr(a + 6, b - a - 6);
        refs.push_back(f.is_absolute() ? f : base_.parent_path() / f);
      }
      bool good = vf::check(refs.size() == 2, refs.size(), " files in ", name, ".vtmb");
      for (const auto &f : refs) good = good && vf::check(std::filesystem::exists(f), name, ".vtmb refers to ", f.string(), ", that does not exist");
      good = good && vtu<p, d>(refs[0], n, m0.pts, m0.con) && vtu<1, d>(refs[1], n, m0.pts, m0.wires);
      if (!good) break;
    }
    std::filesystem::current_path(here);
    std::filesystem::remove_all(dir);
    vf::nontrivial();
  });
}
// every word of operations, against a mesh of plain arrays
template<int d, bool S> void words(const Dom<d> &D, const Grid<d> &G, int n, int depth)
{
  constexpr int p = S ? d - 1 : d;
  const std::string alphabet = p == d ? "abcstpfg" : "abcstp";
  std::shared_ptr<const ReparamMesh<p, d>> raw_, uni_;
  M<p, d> raw, uni;
  A<d> lo0, hi0, lo1, hi1;
  for (int i = 0; i < d; ++i) {
    lo0[i] = -0.5 + i;
    hi0[i] = 1.5 + 2 * i;
    lo1[i] = 3 - i;
    hi1[i] = 3.75 + i;
  }
  std::vector<std::string> all_{ "" };
  for (std::size_t k = 0; k < all_.size(); ++k)
    if (all_[k].size() < static_cast<std::size_t>(depth))
      for (const char c : alphabet) all_.push_back(all_[k] + c);
  for (const auto &w : all_) {
    if (!vf::want(vf::str("words of operations ", d, "D"), vf::str("word a", w, " on ", S ? "the boundary of " : "", D.name, G.name, " with ", n, " points"))) continue;
    vf::guarded([&] {
      if (!raw_) {
        const U<d> u(D.f, G.g);
        const UnfittedDomain<d> &base = u;
        raw_ = qugar::create_reparameterization<d, S>(base, n, false);
        uni_ = qugar::create_reparameterization<d, S>(base, n, true);
      }
      if (!take<p, d>(*raw_, n, raw) || !take<p, d>(*uni_, n, uni)) return;
      ReparamMesh<p, d> m(n);
      M<p, d> ref = raw, got;
      m.merge(*raw_);
      for (const char c : w) {
        const auto before = ref;
        switch (c) {
        case 'a':
        case 'b': {
          const auto &o = c == 'a' ? raw : uni;
          m.merge(c == 'a' ? *raw_ : *uni_);
          for (const auto k : o.con) ref.con.push_back(k + before.pts.size());
          for (const auto k : o.wires) ref.wires.push_back(k + before.pts.size());
          ref.pts.insert(ref.pts.end(), o.pts.begin(), o.pts.end());
          ref.nc += o.nc;
          break;
        }
        case 'c': {
          m.merge_coincident_points(Tolerance(1e-12));
          if (!take<p, d>(m, n, got) || !merged_like<p, d>(ref, got)) return;
          ref = got;
          break;
        }
        case 's':
        case 't': {
          std::vector<int> ids;
          for (std::size_t k = 0; k < ref.pts.size(); k += c == 's' ? 1 : 3) {
            ids.push_back(static_cast<int>(k));
            for (int i = 0; i < d; ++i) ref.pts[k][i] = lo1[i] + (ref.pts[k][i] - lo0[i]) / (hi0[i] - lo0[i]) * (hi1[i] - lo1[i]);
          }
          if (c == 's')
            m.scale_points(bbox<d>(lo0, hi0), bbox<d>(lo1, hi1));
          else
            m.scale_points(ids, bbox<d>(lo0, hi0), bbox<d>(lo1, hi1));
          break;
        }
        case 'p':
          for (std::size_t k = 0; k < ref.nc; k += 2) m.permute_cell_directions(k);
          if (!take<p, d>(m, n, got)) return;
          for (std::size_t k = 0; k < ref.nc; ++k) {
            const auto at_ = static_cast<std::ptrdiff_t>(k * ref.npc), to = static_cast<std::ptrdiff_t>((k + 1) * ref.npc);
            Ix x(ref.con.begin() + at_, ref.con.begin() + to), y(got.con.begin() + at_, got.con.begin() + to);
            if (k % 2 == 0) {
              std::sort(x.begin(), x.end());
              std::sort(y.begin(), y.end());
            }
            if (!vf::check(x == y, "points of cell ", k, " after turning ", k % 2 ? "others" : "it")) return;
          }
          ref.con = got.con;
          break;
        default: {
          if constexpr (p == d) {
            const bool wires = c == 'f';
            const Box<d> b{ lo0, hi1 };
            m.add_full_cell(bbox<d>(b.lo, b.hi), wires);
            if (!take<p, d>(m, n, got)) return;
            const auto &L = line_of(n);
            if (!vf::check(got.con.size() == ref.con.size() + ref.npc && got.pts.size() == ref.pts.size() + ref.npc, "sizes after adding a cell")) return;
            for (std::size_t k = 0; k < ref.npc; ++k) {
              const auto t = digits<p>(static_cast<int>(k), n);
              A<d> x;
              for (int i = 0; i < d; ++i) x[i] = b.lo[i] + (b.hi[i] - b.lo[i]) * L.x[static_cast<std::size_t>(t[static_cast<std::size_t>(i)])];
              const auto at_ = got.con[ref.con.size() + k];
              if (!vf::check(at_ >= ref.pts.size() && dist<d>(got.pts[at_], x) < 1e-12, "point ", k, " of the cell added")) return;
            }
            std::set<Ix> want_, has;
            const auto un = static_cast<std::size_t>(n);
            if (wires)
              for (const auto &e : got.edges(got.nc - 1)) want_.insert(oriented(e));
            const auto old = ref.wires.size();
            if (!vf::check(got.wires.size() == old + want_.size() * un && std::equal(ref.wires.begin(), ref.wires.end(), got.wires.begin()), "wirebasket of ", got.wires.size(), " points after adding a cell to one of ", old)) return;
            for (std::size_t k = old; k < got.wires.size(); k += un) has.insert(oriented(Ix(got.wires.begin() + static_cast<std::ptrdiff_t>(k), got.wires.begin() + static_cast<std::ptrdiff_t>(k + un))));
            if (!vf::check(has == want_, "edges of the cell added")) return;
            auto old_pts = ref.pts;
            ref = got;
            std::copy(old_pts.begin(), old_pts.end(), ref.pts.begin());
          }
        }
        }
        if (!take<p, d>(m, n, got)) return;
        if (!vf::check(got.con == ref.con && got.wires == ref.wires && got.pts.size() == ref.pts.size() && got.nc == ref.nc, "connectivity, wirebasket or number of points after '", c, "' in a", w)) return;
        for (std::size_t k = 0; k < got.pts.size(); ++k)
          if (!vf::check(dist<d>(got.pts[k], ref.pts[k]) < 1e-11, "point ", k, " at ", pt<d>(got.pts[k]), " instead of ", pt<d>(ref.pts[k]), " after '", c, "' in a", w)) return;
      }
      if (!w.empty()) vf::nontrivial();
    });
  }
}
template<int d> void full_cells(const Grid<d> &G, int n)
{
  if (!vf::want(vf::str("full cells ", d, "D"), vf::str("full cells", G.name, " with ", n, " points"))) return;
  vf::guarded([&] {
    const auto &L = line_of(n);
    for (const bool wires : { false, true })
      for (int first = 0; first < G.n(); ++first) {
        Ids ids;
        for (int c = first; c < G.n(); c += 2) ids.push_back(c);
        ReparamMesh<d, d> mesh_(n);
        mesh_.add_full_cells(*G.g, ids, wires);
        M<d, d> m;
        if (!take<d, d>(mesh_, n, m) || !vf::check(m.nc == ids.size(), m.nc, " cells instead of ", ids.size())) return;
        std::set<Ix> got;
        for (std::size_t k = 0; k < m.wires.size(); k += static_cast<std::size_t>(n)) got.insert(oriented(Ix(m.wires.begin() + static_cast<std::ptrdiff_t>(k), m.wires.begin() + static_cast<std::ptrdiff_t>(k) + n)));
        std::size_t edges = 0;
        for (std::size_t c = 0; c < m.nc; ++c) {
          const auto b = G.cell(static_cast<int>(ids[c]));
          const auto x = m.cell(c);
          for (std::size_t k = 0; k < x.size(); ++k) {
            const auto t = digits<d>(static_cast<int>(k), n);
            for (int i = 0; i < d; ++i)
              if (!vf::eq(x[k][i], b.lo[i] + (b.hi[i] - b.lo[i]) * L.x[static_cast<std::size_t>(t[i])], 1e-13, "coordinate ", i, " of point ", k, " of full cell ", ids[c])) return;
          }
          for (const auto &e : m.edges(c)) {
            ++edges;
            if (!vf::check(got.count(oriented(e)) == (wires ? 1U : 0U), "edge of full cell ", ids[c], wires ? " not" : "", " in the wirebasket")) return;
          }
        }
        if (!vf::check(m.wires.size() == (wires ? edges * static_cast<std::size_t>(n) : 0), m.wires.size(), " points in the wirebasket of full cells")) return;
      }
    vf::nontrivial();
  });
}
const std::vector<double> B1{ 0, 1 }, B2{ 0, 0.5, 1 }, B3{ 0, 0.3, 0.7, 1 }, C2{ -1, 0, 1 }, C3{ -1, -0.2, 0.4, 1 }, S2{ 1, 1.6, 2 };
template<int d> void others(const std::vector<Dom<d>> &ds, const std::vector<std::array<std::vector<double>, d>> &gs, const std::vector<int> &ns)
{
  std::size_t k = 0;
  for (const auto &g : gs) {
    const auto G = grid<d>(g);
    for (const int n : ns) full_cells<d>(G, n);
    for (std::size_t i = 0; i < ds.size(); i += vf::thorough ? 1 : 3)
      for (const int n : vf::thorough ? ns : std::vector<int>{ ns[++k % ns.size()] }) facets<d>(ds[i], G, n);
  }
  const auto G = grid<d>(gs.back());
  for (std::size_t i = 0; i < ds.size(); i += vf::thorough ? 17 : 91)
    for (const int n : ns) {
      operations<d, false>(ds[i], G, n);
      operations<d, true>(ds[i], G, n);
      if (n <= (d == 2 ? 4 : 2) && i % 182 == 0) {
        words<d, false>(ds[i], G, n, vf::thorough ? 4 : 3);
        words<d, true>(ds[i], G, n, vf::thorough ? 4 : 3);
      }
    }
}
template<int d> void over(const std::vector<Dom<d>> &ds, const std::vector<std::array<std::vector<double>, d>> &gs, const std::vector<int> &ns)
{
  std::size_t k = 0;
  for (const auto &g : gs) {
    const auto G = grid<d>(g);
    for (const auto &D : ds)
      for (const int n : vf::thorough ? ns : std::vector<int>{ ns[++k % ns.size()] }) {
        one<d, false>(D, G, n);
        one<d, true>(D, G, n);
      }
  }
}
void two()
{
  using L = std::vector<std::array<std::vector<double>, 2>>;
  const L gs = vf::thorough ? L{ { B1, B1 }, { B2, B2 }, { B3, B2 }, { C2, B3 }, { C3, C3 }, { S2, B2 }, { B1, S2 } } : L{ { B1, B1 }, { B2, B3 }, { C3, C2 }, { S2, B2 } };
  const std::vector<A<2>> cs = vf::thorough ? lattice<2>({ 0, 0.25, 0.5, 1, 1.5 }) : lattice<2>({ 0, 0.5, 0.8 });
  std::vector<Dom<2>> all_;
  const auto put = [&](const std::vector<Dom<2>> &v) { all_.insert(all_.end(), v.begin(), v.end()); };
  put(planes<2>(vf::thorough ? std::vector<double>{ -2, -1, 0, 1, 3 } : std::vector<double>{ -1, 0, 3 }, { 0.0, 0.25, 0.5, 0.6, 1.0 }));
  put(spheres<2>({ 0.25, 0.4, 0.5, 1.0 }, cs));
  put(ellipsoids<2>({ { 0.3, 0.8 }, { 1.2, 0.5 } }, cs));
  put(linears<2>({ -1, 0, 0.5, 2 }, vf::thorough ? 3 : 11));
  put(annuli(cs));
  put(squares<2>(vf::thorough ? lattice<2>({ 0, 0.13, 0.5, 1.07 }) : lattice<2>({ 0, 0.13, 0.5 })));
  const auto m = all_.size();
  for (std::size_t i = 0; i < m; i += vf::thorough ? 2 : 5) all_.push_back(negate<2>(all_[i]));
  over<2>(all_, gs, { 2, 3, 4, 5, 7, 8 });
  others<2>(all_, gs, { 2, 3, 4, 5, 7, 8 });
}
void three()
{
  using L = std::vector<std::array<std::vector<double>, 3>>;
  const L gs = vf::thorough ? L{ { B1, B1, B1 }, { B2, B2, B2 }, { C2, B2, B2 }, { S2, B1, B2 }, { C3, C2, B1 } } : L{ { B2, B1, B1 }, { S2, B1, B2 } };
  const std::vector<A<3>> cs = std::vector<A<3>>{ { 0, 0, 0 }, { 0.5, 0.5, 0.5 }, { 0.5, 0, 1 }, { 1.5, 0.4, 0.8 } };
  std::vector<Dom<3>> all_;
  const auto put = [&](const std::vector<Dom<3>> &v) { all_.insert(all_.end(), v.begin(), v.end()); };
  put(planes<3>(vf::thorough ? std::vector<double>{ -1, 0, 1, 2 } : std::vector<double>{ -1, 0, 2 }, { 0.5, 0.6 }));
  put(spheres<3>({ 0.4, 1.0 }, cs));
  put(ellipsoids<3>({ { 0.3, 0.8, 0.5 } }, cs));
  put(linears<3>({ -1, 0.5, 2 }, vf::thorough ? 211 : 1601));
  put(solids(cs));
  const auto m = all_.size();
  for (std::size_t i = 0; i < m; i += vf::thorough ? 4 : 9) all_.push_back(negate<3>(all_[i]));
  over<3>(all_, gs, { 2, 3, 4 });
  others<3>(all_, gs, { 2, 3, 4, 5 });
}
}// namespace
void run()
{
  two();
  three();
  calibration();
}
