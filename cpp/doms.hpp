// Implicit domains with what is known about them without evaluating the code under test.
#ifndef VERIF_DOMS_HPP
#define VERIF_DOMS_HPP
#include "vf.hpp"
#include <array>
#include <memory>
#include <qugar/affine_transf.hpp>
#include <qugar/bezier_tp.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/impl_funcs_lib.hpp>
#include <qugar/impl_unfitted_domain.hpp>
#include <qugar/point.hpp>
#include <qugar/primitive_funcs_lib.hpp>
#include <qugar/tensor_index_tp.hpp>
#include <qugar/tpms_lib.hpp>
namespace doms {
using namespace qugar;
using namespace qugar::impl;
using ld = long double;
template<int d> using A = std::array<double, d>;
template<int d> struct Box// maybe flat along some directions
{
  A<d> lo, hi;
};
// What part of a box is inside of a domain
enum Cat { none, inside, mixed, zero, unsure };
inline const char *const cat_names[] = { "outside", "inside", "crossed", "on the boundary", "unsure" };
struct Rg
{
  ld lo, hi;
};
inline Rg operator+(Rg a, Rg b) { return { a.lo + b.lo, a.hi + b.hi }; }
inline Rg operator*(ld k, Rg a) { return k >= 0 ? Rg{ k * a.lo, k * a.hi } : Rg{ k * a.hi, k * a.lo }; }
inline Rg sq(Rg a)
{
  const ld p = a.lo * a.lo, q = a.hi * a.hi;
  return { a.lo <= 0 && a.hi >= 0 ? 0 : std::min(p, q), std::max(p, q) };
}
inline Rg root(Rg a) { return { sqrtl(a.lo), sqrtl(a.hi) }; }
template<int d> using RgF = std::function<Rg(const Box<d> &)>;
template<int d> struct Dom
{
  std::string name;
  std::shared_ptr<const ImplicitFunc<d>> f;
  std::function<Cat(const Box<d> &)> cat;
  std::function<bool(const Box<d> &)> touch;
  std::function<ld(const A<d> &)> val;// a level set of the same domain
  bool exact = true;
  bool polynomial = false;
  int kind = 0;// 1: plane, 2: sphere, 3: others
  bool curved = false;// may touch facets tangentially
  bool flat = false;// may partially lie on facets
  bool crossing = false;// its boundary may cross itself
  bool rough = false;// its values are zero up to round-off errors
  std::vector<std::pair<int, double>> extremes;// (direction, coordinate) where the boundary turns
  // a facet that the boundary nearly touches: what is cut off has nearly vertical tangents
  bool grazes(const Box<d> &b, bool or_touches) const
  {
    for (const auto &[i, v] : extremes)
      for (const double at : { b.lo[i], b.hi[i] })
        if (std::abs(v - at) < 0.07 && (or_touches || std::abs(v - at) > 1e-9)) return true;
    return false;
  }
};
// does the boundary touch a box that it does not cross?
inline bool touching(Rg r) { return std::abs(r.lo) < 1e-9L || std::abs(r.hi) < 1e-9L; }
inline Cat judge(Rg r)
{
  constexpr ld t = 1e-12L, m = 0.02L;
  if (r.lo >= -t && r.hi <= t) return zero;
  if (r.hi <= t) return inside;
  if (r.lo >= -t) return none;
  return r.lo < -m && r.hi > m ? mixed : unsure;
}
template<int d> std::function<Cat(const Box<d> &)> by_range(const RgF<d> &f)
{
  return [f](const Box<d> &b) { return judge(f(b)); };
}
// both signs found among many points: crossed. Otherwise nothing is known.
template<int d> std::function<Cat(const Box<d> &)> by_points(const std::function<ld(const A<d> &)> &f)
{
  return [f](const Box<d> &b) {
    Rg r{ 1e30L, -1e30L };
    constexpr int n = 12;
    std::array<int, d> t{};
    while (true) {
      A<d> p;
      for (int i = 0; i < d; ++i) p[i] = b.lo[i] + (b.hi[i] - b.lo[i]) * (t[i] + 0.5) / n;
      const ld v = f(p);
      r.lo = std::min(r.lo, v);
      r.hi = std::max(r.hi, v);
      int i = 0;
      while (i < d && (b.hi[i] == b.lo[i] || ++t[i] == n)) t[i++] = 0;
      if (i == d) break;
    }
    return r.lo < -0.02L && r.hi > 0.02L ? mixed : unsure;
  };
}
template<int d> std::string pt(const A<d> &p)
{
  std::string o = "(";
  for (int i = 0; i < d; ++i) o += vf::str(i ? "," : "", p[i]);
  return o + ")";
}
template<int d> Point<d> P(const A<d> &p)
{
  Point<d> r;
  for (int i = 0; i < d; ++i) r(i) = p[i];
  return r;
}
template<int d> Rg side(const Box<d> &b, int i, ld shift = 0) { return { b.lo[i] - shift, b.hi[i] - shift }; }
template<int d> RgF<d> r_plane(const A<d> &o, const A<d> &n)
{
  return [=](const Box<d> &b) {
    Rg r{ 0, 0 };
    for (int i = 0; i < d; ++i) r = r + static_cast<ld>(n[i]) * side<d>(b, i, o[i]);
    return r;
  };
}
template<int d> RgF<d> r_sphere(const A<d> &c, const A<d> &ax, int skip = -1)
{
  return [=](const Box<d> &b) {
    Rg r{ -1, -1 };
    for (int i = 0; i < d; ++i)
      if (i != skip) r = r + (1 / (static_cast<ld>(ax[i]) * ax[i])) * sq(side<d>(b, i, c[i]));
    return r;
  };
}
template<int d> RgF<d> r_linear(const std::vector<double> &c)
{
  return [=](const Box<d> &b) {
    Rg r{ 1e30L, -1e30L };
    for (int k = 0; k < 1 << d; ++k) {
      ld v = 0;
      for (int j = 0; j < 1 << d; ++j) {
        ld w = c[static_cast<std::size_t>(j)];
        for (int i = 0; i < d; ++i) {
          const ld x = (k >> i) & 1 ? b.hi[i] : b.lo[i];
          w *= (j >> i) & 1 ? x : 1 - x;
        }
        v += w;
      }
      r.lo = std::min(r.lo, v);
      r.hi = std::max(r.hi, v);
    }
    return r;
  };
}
inline RgF<2> r_annulus(const A<2> &c, double ri, double ro)
{
  return [=](const Box<2> &b) {
    const Rg q = sq(side<2>(b, 0, c[0])) + sq(side<2>(b, 1, c[1]));
    const auto f = [=](ld x) { return (x - static_cast<ld>(ri) * ri) * (x - static_cast<ld>(ro) * ro); };
    Rg r{ std::min(f(q.lo), f(q.hi)), std::max(f(q.lo), f(q.hi)) };
    const ld m = (static_cast<ld>(ri) * ri + static_cast<ld>(ro) * ro) / 2;
    if (q.lo < m && m < q.hi) r.lo = f(m);
    return r;
  };
}
inline RgF<3> r_torus(const A<3> &c, int axis, double R, double rr)
{
  return [=](const Box<3> &b) {
    Rg q{ 0, 0 };
    for (int i = 0; i < 3; ++i)
      if (i != axis) q = q + sq(side<3>(b, i, c[i]));
    Rg p = root(q);
    p = sq({ p.lo - R, p.hi - R }) + sq(side<3>(b, axis, c[axis]));
    return Rg{ p.lo - static_cast<ld>(rr) * rr, p.hi - static_cast<ld>(rr) * rr };
  };
}
template<int d> RgF<d> r_square(const A<d> &c, const A<d> &h)
{
  return [=](const Box<d> &b) {
    Rg r{ -1, -1 };
    for (int i = 0; i < d; ++i) {
      const Rg s = (1 / static_cast<ld>(h[i])) * root(sq(side<d>(b, i, c[i])));
      r.lo = std::max(r.lo, s.lo - 1);
      r.hi = std::max(r.hi, s.hi - 1);
    }
    return r;
  };
}
template<int d> std::function<ld(const A<d> &)> at_point(const RgF<d> &f)
{
  return [f](const A<d> &p) { return f(Box<d>{ p, p }).lo; };
}
template<int d> Dom<d> make(const std::string &n, const std::shared_ptr<const ImplicitFunc<d>> &f, const RgF<d> &r, int kind = 3, char shape = 'f')
{
  Dom<d> o{ n, f, by_range<d>(r), [r](const Box<d> &b) { return touching(r(b)); }, at_point<d>(r) };
  o.kind = kind;
  o.curved = shape == 'c';
  o.flat = shape == 's';
  o.polynomial = is_bezier(*f);
  return o;
}
template<int d> Dom<d> negate(const Dom<d> &a)
{
  Dom<d> o = a;
  o.name = "-" + a.name;
  o.f = std::make_shared<funcs::Negative<d>>(a.f);
  o.polynomial = false;
  o.val = [v = a.val](const A<d> &p) { return -v(p); };
  o.cat = [c = a.cat](const Box<d> &b) {
    const Cat k = c(b);
    return k == none ? inside : k == inside ? none : k;
  };
  return o;
}
// the product of two polynomials: the inside is where they have different signs
template<int d> Dom<d> cross(const Dom<d> &a, const RgF<d> &ra, const Dom<d> &b, const RgF<d> &rb)
{
  Dom<d> o = a;
  o.name = a.name + " * " + b.name;
  const auto &p = dynamic_cast<const BezierTP<d, 1> &>(*a.f);
  const auto &q = dynamic_cast<const BezierTP<d, 1> &>(*b.f);
  o.f = p * q;
  o.kind = 3;
  o.polynomial = o.rough = true;
  o.val = [x = at_point<d>(ra), y = at_point<d>(rb)](const A<d> &z) { return x(z) * y(z); };
  o.cat = [ra, rb](const Box<d> &z) {
    const Cat k = judge(ra(z)), l = judge(rb(z));
    if (k == zero || l == zero) return zero;
    if (k == unsure || l == unsure) return unsure;
    if (k == mixed && l == mixed) {// do they change of sign together?
      const auto x = at_point<d>(ra), y = at_point<d>(rb);
      return by_points<d>([x, y](const A<d> &w) { return x(w) * y(w); })(z);
    }
    if (k == mixed || l == mixed) return mixed;
    return k == l ? none : inside;
  };
  return o;
}
template<int d> std::vector<A<d>> lattice(const std::vector<double> &v)
{
  std::vector<A<d>> o;
  std::array<std::size_t, d> k{};
  while (true) {
    A<d> p;
    for (int i = 0; i < d; ++i) p[i] = v[k[i]];
    o.push_back(p);
    int i = 0;
    while (i < d && ++k[i] == v.size()) k[i++] = 0;
    if (i == d) return o;
  }
}
template<int d> A<d> fill(double v)
{
  A<d> r;
  r.fill(v);
  return r;
}
template<int d> bool null(const A<d> &a)
{
  for (const auto v : a)
    if (v != 0) return false;
  return true;
}
template<int d> std::vector<Dom<d>> planes(const std::vector<double> &ns, const std::vector<double> &os)
{
  std::vector<Dom<d>> r;
  for (const auto &n : lattice<d>(ns)) {
    if (null<d>(n)) continue;
    ld m = 0;
    for (const auto v : n) m += static_cast<ld>(v) * v;
    A<d> u;
    for (int i = 0; i < d; ++i) u[i] = static_cast<double>(n[i] / sqrtl(m));
    for (const auto o : os) {
      const auto c = fill<d>(o);
      const auto k = pt<d>(n) + vf::str("@", o);
      r.push_back(make<d>("Plane" + k, std::make_shared<funcs::Plane<d>>(P<d>(c), P<d>(n)), r_plane<d>(c, u), 1));
      r.push_back(make<d>("PlaneBzr" + k, std::make_shared<funcs::PlaneBzr<d>>(P<d>(c), P<d>(n)), r_plane<d>(c, u), 1));
    }
  }
  return r;
}
template<int d> Dom<d> turning(Dom<d> D, const A<d> &c, const A<d> &r, int skip = -1)
{
  for (int i = 0; i < d; ++i)
    if (i != skip)
      for (const double s : { -1.0, 1.0 }) D.extremes.emplace_back(i, c[i] + s * r[i]);
  return D;
}
template<int d> std::vector<Dom<d>> spheres(const std::vector<double> &rs, const std::vector<A<d>> &cs)
{
  std::vector<Dom<d>> r;
  for (const auto R : rs)
    for (const auto &c : cs) {
      const auto k = vf::str(R, pt<d>(c));
      r.push_back(turning<d>(make<d>("Sphere" + k, std::make_shared<funcs::Sphere<d>>(R, P<d>(c)), r_sphere<d>(c, fill<d>(R)), 2, 'c'), c, fill<d>(R)));
      r.push_back(turning<d>(make<d>("SphereBzr" + k, std::make_shared<funcs::SphereBzr<d>>(R, P<d>(c)), r_sphere<d>(c, fill<d>(R)), 2, 'c'), c, fill<d>(R)));
    }
  return r;
}
template<int d> std::vector<Dom<d>> ellipsoids(const std::vector<A<d>> &as, const std::vector<A<d>> &cs)
{
  std::vector<Dom<d>> r;
  for (const auto &a : as)
    for (const auto &c : cs) {
      const auto k = pt<d>(a) + pt<d>(c);
      const RefSystem<d> sys(P<d>(c));
      r.push_back(turning<d>(make<d>("Ellipsoid" + k, std::make_shared<funcs::Ellipsoid<d>>(P<d>(a), sys), r_sphere<d>(c, a), 3, 'c'), c, a));
      r.push_back(turning<d>(make<d>("EllipsoidBzr" + k, std::make_shared<funcs::EllipsoidBzr<d>>(P<d>(a), sys), r_sphere<d>(c, a), 3, 'c'), c, a));
    }
  return r;
}
// multilinear functions with corner values of a small set
template<int d> std::vector<Dom<d>> linears(const std::vector<double> &vs, std::size_t step)
{
  std::vector<Dom<d>> r;
  const auto all_ = lattice<1 << d>(vs);
  for (std::size_t i = 0; i < all_.size(); i += step) {
    bool same = true;
    for (const auto v : all_[i]) same &= v == all_[i][0];
    if (same) continue;
    const std::vector<double> c(all_[i].begin(), all_[i].end());
    std::array<real, 1 << d> q;
    for (std::size_t j = 0; j < c.size(); ++j) q[j] = c[j];
    const auto k = pt<1 << d>(all_[i]);
    r.push_back(make<d>("DimLinear" + k, std::make_shared<funcs::DimLinear<d>>(q), r_linear<d>(c)));
    r.push_back(make<d>("Bezier" + k, std::make_shared<BezierTP<d, 1>>(TensorSizeTP<d>(2), c), r_linear<d>(c)));
    if (d == 2) r.back().crossing = r[r.size() - 2].crossing = c[0] * c[3] == c[1] * c[2];
  }
  return r;
}
inline std::vector<Dom<2>> annuli(const std::vector<A<2>> &cs)
{
  std::vector<Dom<2>> r;
  for (const auto &[a, b] : { std::pair{ 0.3, 0.8 }, std::pair{ 0.25, 0.5 }, std::pair{ 0.5, 1.25 } })
    for (const auto &c : cs) {
      const auto k = vf::str(a, ",", b, pt<2>(c));
      r.push_back(turning<2>(turning<2>(make<2>("Annulus" + k, std::make_shared<funcs::Annulus>(a, b, P<2>(c)), r_annulus(c, a, b), 3, 'c'), c, fill<2>(a)), c, fill<2>(b)));
      r.push_back(turning<2>(turning<2>(make<2>("AnnulusBzr" + k, std::make_shared<funcs::AnnulusBzr>(a, b, P<2>(c)), r_annulus(c, a, b), 3, 'c'), c, fill<2>(a)), c, fill<2>(b)));
    }
  return r;
}
inline std::vector<Dom<3>> solids(const std::vector<A<3>> &cs)
{
  std::vector<Dom<3>> r;
  for (const auto R : { 0.4, 0.7 })
    for (const auto &c : cs)
      for (int ax = 0; ax < 3; ++ax) {
        A<3> e{};
        e[ax] = 1;
        const auto k = vf::str(R, pt<3>(c), " axis ", ax);
        const double m = 0.3 * R;
        r.push_back(turning<3>(make<3>("Cylinder" + k, std::make_shared<funcs::Cylinder>(R, P<3>(c), P<3>(e)), r_sphere<3>(c, fill<3>(R), ax), 3, 'c'), c, fill<3>(R), ax));
        r.push_back(turning<3>(make<3>("CylinderBzr" + k, std::make_shared<funcs::CylinderBzr>(R, P<3>(c), P<3>(e)), r_sphere<3>(c, fill<3>(R), ax), 3, 'c'), c, fill<3>(R), ax));
        r.push_back(make<3>("Torus" + k, std::make_shared<funcs::Torus>(R, m, P<3>(c), P<3>(e)), r_torus(c, ax, R, m), 3, 'c'));
      }
  return r;
}
template<int d> std::vector<Dom<d>> squares(const std::vector<A<d>> &cs)
{
  std::vector<Dom<d>> r;
  for (const auto &c : cs)
    for (const double h : { 0.5, 0.3, 1.0 })
      r.push_back(make<d>("Square" + vf::str(h, pt<d>(c)), std::make_shared<funcs::Square<d>>(AffineTransf<d>(P<d>(c), h)), r_square<d>(c, fill<d>(h)), 3, 's'));
  return r;
}
// domains about which only what can be seen at many points is known
template<int d> Dom<d> sampled(const std::string &n, const std::shared_ptr<const ImplicitFunc<d>> &f, const std::function<ld(const A<d> &)> &v)
{
  Dom<d> o{ n, f, by_points<d>(v), [](const Box<d> &) { return true; }, v };
  o.exact = false;
  o.polynomial = is_bezier(*f);
  o.kind = 3;
  return o;
}
template<int d> std::vector<Dom<d>> surfaces()
{
  std::vector<Dom<d>> r;
  const ld pi2 = 2 * acosl(-1.0L);
  for (const double q : { 1.0, 0.5 }) {
    const auto x = [q, pi2](const A<d> &p, int i) { return i < d ? pi2 * q * p[i] : 0.0L; };
    const auto name = vf::str(" ", d, "D ", q);
    Vector<real, d> m(q);
    const auto add = [&](const char *n, const std::shared_ptr<const ImplicitFunc<d>> &f, const std::function<ld(ld, ld, ld)> &v) {
      r.push_back(sampled<d>(n + name, f, [=](const A<d> &p) { return v(x(p, 0), x(p, 1), x(p, 2)); }));
    };
    const auto mk = [&](auto tag) {
      using F = typename decltype(tag)::type;
      if constexpr (d == 3)
        return std::shared_ptr<const ImplicitFunc<d>>(std::make_shared<F>(m));
      else
        return std::shared_ptr<const ImplicitFunc<d>>(std::make_shared<F>(m, 0.0));
    };
    add("Schwarz P", mk(std::type_identity<tpms::SchwarzPrimitive<d>>{}), [](ld a, ld b, ld c) { return cosl(a) + cosl(b) + cosl(c); });
    add("Schoen", mk(std::type_identity<tpms::Schoen<d>>{}), [](ld a, ld b, ld c) { return sinl(a) * cosl(b) + sinl(b) * cosl(c) + sinl(c) * cosl(a); });
  }
  return r;
}
template<int d> struct Grid
{
  std::string name;
  std::array<std::vector<double>, d> br;
  std::shared_ptr<const CartGridTP<d>> g;
  int n() const
  {
    int r = 1;
    for (const auto &b : br) r *= static_cast<int>(b.size()) - 1;
    return r;
  }
  Box<d> cell(int c) const
  {
    Box<d> b;
    for (int i = 0; i < d; ++i) {
      const int m = static_cast<int>(br[i].size()) - 1;
      b.lo[i] = br[i][static_cast<std::size_t>(c % m)];
      b.hi[i] = br[i][static_cast<std::size_t>(c % m + 1)];
      c /= m;
    }
    return b;
  }
  // the neighbour of a cell across a facet, or -1
  int next(int c, int facet) const
  {
    int s = 1;
    for (int i = 0; i < facet / 2; ++i) s *= static_cast<int>(br[i].size()) - 1;
    const int m = static_cast<int>(br[facet / 2].size()) - 1;
    const int k = c / s % m + (facet % 2 ? 1 : -1);
    return k < 0 || k == m ? -1 : c + (facet % 2 ? s : -s);
  }
};
template<int d> Box<d> facet_of(Box<d> b, int f)
{
  (f % 2 ? b.lo : b.hi)[f / 2] = (f % 2 ? b.hi : b.lo)[f / 2];
  return b;
}
template<int d> Grid<d> grid(const std::array<std::vector<double>, d> &br)
{
  Grid<d> r;
  r.br = br;
  std::array<std::vector<real>, d> b;
  for (int i = 0; i < d; ++i) {
    for (const double v : br[i]) b[i].push_back(v);
    r.name += i ? " x " : " on ";
    for (std::size_t k = 0; k < br[i].size(); ++k) r.name += vf::str(k ? "," : "", br[i][k]);
  }
  r.g = std::make_shared<const CartGridTP<d>>(b);
  return r;
}
}// namespace doms
#endif
