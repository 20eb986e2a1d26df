// C17: the implicit functions, against their definitions differentiated exactly (second-order jets).
#include "vf.hpp"
#include <optional>
#include <tuple>
#include <algoim/interval.hpp>
#include <array>
#include <memory>
#include <qugar/affine_transf.hpp>
#include <qugar/domain_function.hpp>
#include <qugar/impl_funcs_lib.hpp>
#include <qugar/primitive_funcs_lib.hpp>
#include <qugar/ref_system.hpp>
#include <qugar/tpms_lib.hpp>
using namespace qugar;
using namespace qugar::impl;
namespace {
using ld = long double;
template<int d> struct Jet
{
  ld v = 0;
  std::array<ld, d> g{};
  std::array<std::array<ld, d>, d> h{};
  Jet() = default;
  Jet(ld x) : v(x) {}
};
// c(a) given the value and derivatives of c
template<int d> Jet<d> chain(const Jet<d> &a, ld c0, ld c1, ld c2)
{
  Jet<d> r(c0);
  for (int i = 0; i < d; ++i) {
    r.g[i] = c1 * a.g[i];
    for (int j = 0; j < d; ++j) r.h[i][j] = c1 * a.h[i][j] + c2 * a.g[i] * a.g[j];
  }
  return r;
}
template<int d> Jet<d> lin(const Jet<d> &a, ld x, const Jet<d> &b, ld y)
{
  Jet<d> r(x * a.v + y * b.v);
  for (int i = 0; i < d; ++i) {
    r.g[i] = x * a.g[i] + y * b.g[i];
    for (int j = 0; j < d; ++j) r.h[i][j] = x * a.h[i][j] + y * b.h[i][j];
  }
  return r;
}
template<int d> Jet<d> operator+(const Jet<d> &a, const Jet<d> &b) { return lin(a, 1, b, 1); }
template<int d> Jet<d> operator-(const Jet<d> &a, const Jet<d> &b) { return lin(a, 1, b, -1); }
template<int d> Jet<d> operator*(const Jet<d> &a, const Jet<d> &b)
{
  Jet<d> r(a.v * b.v);
  for (int i = 0; i < d; ++i) {
    r.g[i] = a.v * b.g[i] + b.v * a.g[i];
    for (int j = 0; j < d; ++j) r.h[i][j] = a.v * b.h[i][j] + b.v * a.h[i][j] + a.g[i] * b.g[j] + b.g[i] * a.g[j];
  }
  return r;
}
template<int d> Jet<d> operator*(ld x, const Jet<d> &a) { return lin(a, x, a, 0); }
template<int d> Jet<d> operator+(const Jet<d> &a, ld x) { return a + Jet<d>(x); }
template<int d> Jet<d> operator-(const Jet<d> &a, ld x) { return a - Jet<d>(x); }
template<int d> Jet<d> operator-(ld x, const Jet<d> &a) { return Jet<d>(x) - a; }
template<int d> Jet<d> sn(const Jet<d> &a) { return chain(a, sinl(a.v), cosl(a.v), -sinl(a.v)); }
template<int d> Jet<d> cs(const Jet<d> &a) { return chain(a, cosl(a.v), -sinl(a.v), -cosl(a.v)); }
template<int d> using JV = std::array<Jet<d>, d>;
template<int d> using Def = std::function<Jet<d>(const JV<d> &)>;
template<int d> using Fn = std::shared_ptr<const ImplicitFunc<d>>;
template<int d> struct Item
{
  std::string name;
  Fn<d> f;
  Def<d> def;
  bool smooth = true;
  double freq = 1;// to narrow the intervals of the wavy ones
};
template<int d> std::string s(const Point<d> &p)
{
  std::string o = "(";
  for (int i = 0; i < d; ++i) o += (i ? "," : "") + vf::str(p(i));
  return o + ")";
}
template<int d> std::vector<Point<d>> lattice(const std::vector<double> &v)
{
  std::vector<Point<d>> o;
  std::array<std::size_t, d> k{};
  while (true) {
    Point<d> p;
    for (int i = 0; i < d; ++i) p(i) = v[k[i]];
    o.push_back(p);
    int i = 0;
    while (i < d && ++k[i] == v.size()) k[i++] = 0;
    if (i == d) return o;
  }
}
template<int d> JV<d> var(const Point<d> &p)
{
  JV<d> x;
  for (int i = 0; i < d; ++i) {
    x[i].v = p(i);
    x[i].g[i] = 1;
  }
  return x;
}
// Bezier polynomials are evaluated far outside of [0,1]^d, where their terms cancel
template<int d> bool close(double got, ld want, const std::string &what)
{
  return vf::check(std::isfinite(got) && std::abs(got - want) <= 3e-8L * (1 + std::abs(want)), what, ": ", got, " instead of ", static_cast<double>(want));
}
// the value, and the derivatives if they are asked for, of all points of a box
template<int d> bool encloses(const ImplicitFunc<d> &f, const Point<d> &c, double w)
{
  using I = ::algoim::Interval<d>;
  Point<d, I> x;
  for (int i = 0; i < d; ++i) {
    ::algoim::uvector<real, d> b(0.0);
    b(i) = 1;
    x(i) = I(c(i), b);
    I::delta(i) = w * (1 + 0.7 * i * (w > 0.3 ? 1 : -0.5));
  }
  const I v = f(x);
  Vector<I, d> gv;
  gv = f.grad(x);
  constexpr int n = d == 2 ? 7 : 5;
  std::array<int, d> t{};
  while (true) {
    Point<d> p, y;
    for (int i = 0; i < d; ++i) {
      y(i) = (2.0 * t[i] / (n - 1) - 1) * I::delta(i);
      p(i) = c(i) + y(i);
    }
    Vector<real, d> g;
    g = f.grad(p);
    for (int k = -1; k < d; ++k) {
      const I &e = k < 0 ? v : gv(k);
      const double q = k < 0 ? f(p) : g(k);
      ld l = e.alpha;
      for (int i = 0; i < d; ++i) l += e.beta(i) * y(i);
      if (!vf::check(std::abs(q - l) <= e.eps * (1 + 1e-9) + 1e-9 * (1 + std::abs(q)), k < 0 ? std::string("value") : vf::str("derivative ", k), ": the interval of half width ", w, " around ", s<d>(c), " does not enclose ", q, " at ", s<d>(p))) return false;
    }
    int i = 0;
    while (i < d && ++t[i] == n) t[i++] = 0;
    if (i == d) return true;
  }
}
template<int d> void judge(const Item<d> &it)
{
  if (!vf::want("function", it.name)) return;
  vf::nontrivial();
  vf::guarded([&] {
    const auto &f = *it.f;
    const auto pts = lattice<d>(d == 2 ? std::vector<double>{ -1.1, -0.35, 0, 0.2, 0.5, 0.77, 1, 1.6 } : std::vector<double>{ -1.1, 0, 0.2, 0.5, 1, 1.6 });
    for (const auto &p : pts) {
      const auto j = it.def(var<d>(p));
      if (!close<d>(f(p), j.v, "value at " + s<d>(p))) return;
      if (!it.smooth) {
        // the function is smooth around this point?
        bool ok = true;
        for (int k = 0; k < 2 * d; ++k) {
          auto q = p;
          q(k / 2) += k % 2 ? 1e-6 : -1e-6;
          const auto jq = it.def(var<d>(q));
          for (int i = 0; i < d; ++i) ok &= std::abs(jq.g[i] - j.g[i]) < 1e-9L;
        }
        if (!ok) continue;
      }
      const auto g = f.grad(p);
      for (int i = 0; i < d; ++i)
        if (!close<d>(g(i), j.g[i], vf::str("derivative ", i, " at ", s<d>(p)))) return;
      if (!it.smooth) continue;
      const auto h = f.hessian(p);
      for (int i = 0, k = 0; i < d; ++i)
        for (int l = i; l < d; ++l, ++k)
          if (!close<d>(h(k), j.h[i][l], vf::str("derivative ", i, l, " at ", s<d>(p)))) return;
    }
    for (const auto &c : lattice<d>(d == 2 ? std::vector<double>{ 0.1, 0.5, 0.9 } : std::vector<double>{ 0.15, 0.8 }))
      for (const double w : { 0.05, 0.25, 0.6 })
        if (!encloses<d>(f, c, w / it.freq)) return;
  });
}
template<int d> std::vector<ld> unit(const Point<d> &a)
{
  ld n = 0;
  for (int i = 0; i < d; ++i) n += static_cast<ld>(a(i)) * a(i);
  std::vector<ld> r;
  for (int i = 0; i < d; ++i) r.push_back(a(i) / sqrtl(n));
  return r;
}
template<int d, typename P> JV<d> minus(const JV<d> &x, const P &o)
{
  JV<d> r;
  for (int i = 0; i < d; ++i) r[i] = x[i] - static_cast<ld>(o(i));
  return r;
}
template<int d> Jet<d> sq(const JV<d> &x)
{
  Jet<d> r;
  for (const auto &v : x) r = r + v * v;
  return r;
}
template<int d, typename A> Jet<d> along(const JV<d> &x, const A &a)
{
  Jet<d> r;
  for (int i = 0; i < d; ++i) r = r + static_cast<ld>(a[i]) * x[i];
  return r;
}
template<int d> std::vector<Point<d>> places()
{
  std::vector<Point<d>> r{ Point<d>(0.0) };
  Point<d> p, q;
  for (int i = 0; i < d; ++i) {
    p(i) = 0.4 - 0.3 * i;
    q(i) = i == d - 1 ? 1.25 : 0;
  }
  r.push_back(p);
  r.push_back(q);
  return r;
}
std::vector<Point<3>> axes3()
{
  std::vector<Point<3>> r;
  for (const auto &p : lattice<3>(vf::thorough ? std::vector<double>{ -2, -1, 0, 1, 0.5 } : std::vector<double>{ -1, 0, 2 }))
    if (p(0) != 0 || p(1) != 0 || p(2) != 0) r.push_back(p);
  return r;
}
template<int d> Def<d> sphere(double r, const Point<d> &c)
{
  return [=](const JV<d> &x) { return sq<d>(minus<d>(x, c)) - static_cast<ld>(r) * r; };
}
template<int d, typename S> Def<d> ellipsoid(const Point<d> &ax, const S &sys)
{
  return [=](const JV<d> &x) {
    const auto y = minus<d>(x, sys.get_origin());
    Jet<d> r(-1);
    for (int i = 0; i < d; ++i) {
      const auto &b = sys.get_basis()[i];
      std::vector<ld> bv;
      for (int k = 0; k < d; ++k) bv.push_back(b(k));
      const auto t = along<d>(y, bv);
      r = r + (1 / (static_cast<ld>(ax(i)) * ax(i))) * (t * t);
    }
    return r;
  };
}
template<int d> Def<d> plane(const Point<d> &o, std::vector<ld> n)
{
  return [=](const JV<d> &x) { return along<d>(minus<d>(x, o), n); };
}
template<int d> std::vector<RefSystem<d>> systems()
{
  std::vector<RefSystem<d>> r{ RefSystem<d>() };
  for (const auto &o : places<d>()) {
    r.emplace_back(o);
    for (const auto &a : lattice<d>({ -1, 0, 2 })) {
      bool z = true;
      for (int i = 0; i < d; ++i) z &= a(i) == 0;
      if (z) continue;
      r.emplace_back(o, a);
      if constexpr (d == 3)
        for (const auto &b : { Point<3>(0, 1, 0), Point<3>(1, 2, -1), Point<3>(0, 0, 1) }) {
          const Point<3> c(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0));
          if (c(0) != 0 || c(1) != 0 || c(2) != 0) r.emplace_back(o, a, b);
        }
    }
  }
  return r;
}
template<int d> using Out = std::vector<Item<d>>;
template<int d> std::string sysname(const RefSystem<d> &y)
{
  std::string o = s<d>(y.get_origin());
  for (const auto &b : y.get_basis()) o += s<d>(b);
  return o;
}
template<int d> Out<d> primitives()
{
  Out<d> r;
  const std::string D = std::to_string(d) + "D";
  for (const double R : { 0.5, 1.3 }) {
    r.push_back({ vf::str("Sphere ", D, " ", R), std::make_shared<funcs::Sphere<d>>(R), sphere<d>(R, Point<d>(0.0)) });
    r.push_back({ vf::str("SphereBzr ", D, " ", R), std::make_shared<funcs::SphereBzr<d>>(R), sphere<d>(R, Point<d>(0.0)) });
    for (const auto &c : places<d>()) {
      r.push_back({ vf::str("Sphere ", D, " ", R, s<d>(c)), std::make_shared<funcs::Sphere<d>>(R, c), sphere<d>(R, c) });
      r.push_back({ vf::str("SphereBzr ", D, " ", R, s<d>(c)), std::make_shared<funcs::SphereBzr<d>>(R, c), sphere<d>(R, c) });
    }
  }
  for (int k = 0; k < 3; ++k) {
    Point<d> ax;
    for (int i = 0; i < d; ++i) ax(i) = k == 0 ? 0.7 : k == 1 ? 0.5 + 0.6 * i : 1.5 - 0.4 * i;
    r.push_back({ vf::str("Ellipsoid ", s<d>(ax)), std::make_shared<funcs::Ellipsoid<d>>(ax), ellipsoid<d>(ax, RefSystem<d>()) });
    r.push_back({ vf::str("EllipsoidBzr ", s<d>(ax)), std::make_shared<funcs::EllipsoidBzr<d>>(ax), ellipsoid<d>(ax, RefSystem<d>()) });
    for (const auto &y : systems<d>()) {
      r.push_back({ vf::str("Ellipsoid ", s<d>(ax), " in ", sysname<d>(y)), std::make_shared<funcs::Ellipsoid<d>>(ax, y), ellipsoid<d>(ax, y) });
      r.push_back({ vf::str("EllipsoidBzr ", s<d>(ax), " in ", sysname<d>(y)), std::make_shared<funcs::EllipsoidBzr<d>>(ax, y), ellipsoid<d>(ax, y) });
    }
  }
  {
    std::vector<ld> e0(d, 0);
    e0[0] = 1;
    r.push_back({ "Plane " + D, std::make_shared<funcs::Plane<d>>(), plane<d>(Point<d>(0.0), e0) });
    r.push_back({ "PlaneBzr " + D, std::make_shared<funcs::PlaneBzr<d>>(), plane<d>(Point<d>(0.0), e0) });
    for (const auto &o : places<d>())
      for (const auto &a : lattice<d>({ -1, 0, 2 })) {
        const auto u = unit<d>(a);
        if (std::isnan(u[0])) continue;
        // the scale of a plane is left open: it is that at one point
        const auto scaled = [&](const Fn<d> &f) {
          Point<d> p = o;
          ld n = 0;
          for (int i = 0; i < d; ++i) p(i) += static_cast<double>(u[i]);
          const double v = (*f)(p);
          for (int i = 0; i < d; ++i) n += static_cast<ld>(a(i)) * a(i);
          n = sqrtl(n);
          const ld k = std::abs(v - 1) < 1e-9 ? 1 : n;// the normal as given or normalised
          auto w = u;
          for (auto &x : w) x *= k;
          return plane<d>(o, w);
        };
        Fn<d> f = std::make_shared<funcs::Plane<d>>(o, a), g = std::make_shared<funcs::PlaneBzr<d>>(o, a);
        r.push_back({ vf::str("Plane ", s<d>(o), s<d>(a)), f, scaled(f) });
        r.push_back({ vf::str("PlaneBzr ", s<d>(o), s<d>(a)), g, scaled(g) });
      }
  }
  for (const double v : { -1.5, 0., 2. }) {
    r.push_back({ vf::str("Constant ", D, " ", v), std::make_shared<funcs::Constant<d>>(v), [v](const JV<d> &) { return Jet<d>(v); } });
    r.push_back({ vf::str("ConstantBzr ", D, " ", v), std::make_shared<funcs::ConstantBzr<d>>(v), [v](const JV<d> &) { return Jet<d>(v); } });
  }
  r.push_back({ vf::str("Constant ", D), std::make_shared<funcs::Constant<d>>(), [](const JV<d> &) { return Jet<d>(0.5); } });
  r.push_back({ vf::str("ConstantBzr ", D), std::make_shared<funcs::ConstantBzr<d>>(), [](const JV<d> &) { return Jet<d>(0.5); } });
  return r;
}
Out<2> annuli()
{
  Out<2> r;
  for (const auto &[a, b] : { std::pair{ 0.3, 0.8 }, std::pair{ 0.5, 1.7 } }) {
    const auto def = [a = a, b = b](const Point<2> &c) {
      return Def<2>([=](const JV<2> &x) {
        const auto q = sq<2>(minus<2>(x, c));
        return (q - static_cast<ld>(a) * a) * (q - static_cast<ld>(b) * b);
      });
    };
    r.push_back({ vf::str("Annulus ", a, ",", b), std::make_shared<funcs::Annulus>(a, b), def(Point<2>(0.0)) });
    r.push_back({ vf::str("AnnulusBzr ", a, ",", b), std::make_shared<funcs::AnnulusBzr>(a, b), def(Point<2>(0.0)) });
    for (const auto &c : places<2>()) {
      r.push_back({ vf::str("Annulus ", a, ",", b, s<2>(c)), std::make_shared<funcs::Annulus>(a, b, c), def(c) });
      r.push_back({ vf::str("AnnulusBzr ", a, ",", b, s<2>(c)), std::make_shared<funcs::AnnulusBzr>(a, b, c), def(c) });
    }
  }
  return r;
}
Out<3> solids()
{
  Out<3> r;
  const Point<3> O(0.0), Z(0, 0, 1);
  for (const double R : { 0.6, 1.1 }) {
    const auto cyl = [R](const Point<3> &o, const Point<3> &a) {
      return Def<3>([=](const JV<3> &x) {
        const auto y = minus<3>(x, o);
        const auto t = along<3>(y, unit<3>(a));
        return sq<3>(y) - t * t - static_cast<ld>(R) * R;
      });
    };
    const double m = 0.25 * R;
    const auto tor = [R, m](const Point<3> &o, const Point<3> &a) {
      return Def<3>([=](const JV<3> &x) {
        // (|y|^2 + R^2 - r^2)^2 - 4 R^2 (|y|^2 - (y.a)^2)
        const auto y = minus<3>(x, o);
        const auto t = along<3>(y, unit<3>(a));
        const auto q = sq<3>(y);
        const auto k = q + (static_cast<ld>(R) * R - static_cast<ld>(m) * m);
        return k * k - (4 * static_cast<ld>(R) * R) * (q - t * t);
      });
    };
    r.push_back({ vf::str("Cylinder ", R), std::make_shared<funcs::Cylinder>(R), cyl(O, Z) });
    r.push_back({ vf::str("CylinderBzr ", R), std::make_shared<funcs::CylinderBzr>(R), cyl(O, Z) });
    r.push_back({ vf::str("Torus ", R), std::make_shared<funcs::Torus>(R, m), tor(O, Z) });
    r.push_back({ vf::str("TorusBzr ", R), std::make_shared<funcs::TorusBzr>(R, m), tor(O, Z) });
    for (const auto &o : places<3>()) {
      r.push_back({ vf::str("Cylinder ", R, s<3>(o)), std::make_shared<funcs::Cylinder>(R, o), cyl(o, Z) });
      r.push_back({ vf::str("CylinderBzr ", R, s<3>(o)), std::make_shared<funcs::CylinderBzr>(R, o), cyl(o, Z) });
      r.push_back({ vf::str("Torus ", R, s<3>(o)), std::make_shared<funcs::Torus>(R, m, o), tor(o, Z) });
      r.push_back({ vf::str("TorusBzr ", R, s<3>(o)), std::make_shared<funcs::TorusBzr>(R, m, o), tor(o, Z) });
      for (const auto &a : axes3()) {
        const auto k = vf::str(R, s<3>(o), s<3>(a));
        r.push_back({ "Cylinder " + k, std::make_shared<funcs::Cylinder>(R, o, a), cyl(o, a) });
        r.push_back({ "CylinderBzr " + k, std::make_shared<funcs::CylinderBzr>(R, o, a), cyl(o, a) });
        r.push_back({ "Torus " + k, std::make_shared<funcs::Torus>(R, m, o, a), tor(o, a) });
        r.push_back({ "TorusBzr " + k, std::make_shared<funcs::TorusBzr>(R, m, o, a), tor(o, a) });
      }
    }
  }
  return r;
}
template<int d> struct Tr
{
  std::string name;
  AffineTransf<d> t;
};
template<int d> std::vector<Tr<d>> transfs()
{
  std::vector<Tr<d>> r{ { "identity", AffineTransf<d>() } };
  int n = 0;
  for (const auto &o : places<d>()) {
    r.push_back({ vf::str("translation", n), AffineTransf<d>(o) });
    r.push_back({ vf::str("scaling", n), AffineTransf<d>(o, 1.7) });
    if constexpr (d == 2) {
      r.push_back({ vf::str("rotation", n), AffineTransf<2>(o, Point<2>(1, 2)) });
      r.push_back({ vf::str("half turn", n), AffineTransf<2>(o, Point<2>(-1, 0)) });
      r.push_back({ vf::str("stretched rotation", n), AffineTransf<2>(o, Point<2>(2, -1), 0.6, 2.2) });
      r.push_back({ vf::str("stretching", n), AffineTransf<2>(o, Point<2>(1, 0), 2.5, 0.8) });
      Vector<real, 6> c;
      const double v[] = { 1.2, 0.5, -0.3, 0.9, 0.1, 0.4 };
      for (int i = 0; i < 6; ++i) c(i) = v[i] + 0.1 * n;
      r.push_back({ vf::str("affine", n), AffineTransf<2>(c) });
    } else {
      r.push_back({ vf::str("rotation", n), AffineTransf<3>(o, Point<3>(1, 2, 0), Point<3>(0, 1, 1)) });
      r.push_back({ vf::str("swap", n), AffineTransf<3>(o, Point<3>(0, 1, 0), Point<3>(1, 0, 0)) });
      r.push_back({ vf::str("stretched rotation", n), AffineTransf<3>(o, Point<3>(1, 0, 1), Point<3>(0, 1, -1), 0.6, 2.2, 1.3) });
      r.push_back({ vf::str("stretching", n), AffineTransf<3>(o, Point<3>(1, 0, 0), Point<3>(0, 1, 0), 2.5, 0.8, 1.1) });
      Vector<real, 12> c;
      const double v[] = { 1.2, 0.5, -0.3, 0.1, 0.9, 0.4, 0.2, -0.6, 1.1, 0.3, -0.2, 0.7 };
      for (int i = 0; i < 12; ++i) c(i) = v[i] + (i < 9 ? 0 : 0.1 * n);
      r.push_back({ vf::str("affine", n), AffineTransf<3>(c) });
    }
    ++n;
  }
  return r;
}
// x -> T^-1 x, on jets
template<int d> std::function<JV<d>(const JV<d> &)> pull(const AffineTransf<d> &t)
{
  const Point<d> b = t.transform_point(Point<d>(0.0));
  std::array<std::array<ld, 2 * d>, d> m{};
  for (int j = 0; j < d; ++j) {
    Point<d> e(0.0);
    e(j) = 1;
    const Point<d> c = t.transform_point(e);
    for (int i = 0; i < d; ++i) m[i][j] = static_cast<ld>(c(i)) - b(i);
    m[j][d + j] = 1;
  }
  for (int k = 0; k < d; ++k) {
    int p = k;
    for (int i = k; i < d; ++i)
      if (std::abs(m[i][k]) > std::abs(m[p][k])) p = i;
    std::swap(m[k], m[p]);
    const ld q = m[k][k];
    for (auto &v : m[k]) v /= q;
    for (int i = 0; i < d; ++i)
      if (i != k) {
        const ld f = m[i][k];
        for (int j = 0; j < 2 * d; ++j) m[i][j] -= f * m[k][j];
      }
  }
  return [=](const JV<d> &x) {
    const auto y = minus<d>(x, b);
    JV<d> z;
    for (int i = 0; i < d; ++i)
      for (int j = 0; j < d; ++j) z[i] = z[i] + m[i][d + j] * y[j];
    return z;
  };
}
template<int d> Jet<d> square(const JV<d> &x)
{
  int k = 0;
  for (int i = 1; i < d; ++i)
    if (std::abs(x[i].v) > std::abs(x[k].v)) k = i;
  return (x[k].v < 0 ? -1.0L : 1.0L) * x[k] - 1.0L;
}
template<int d> Jet<d> dimlin(const std::array<real, (1 << d)> &c, const JV<d> &x)
{
  Jet<d> r;
  for (int k = 0; k < (1 << d); ++k) {
    Jet<d> t(c[k]);
    for (int i = 0; i < d; ++i) t = t * ((k >> i) & 1 ? x[i] : 1.0L - x[i]);
    r = r + t;
  }
  return r;
}
template<int d> Out<d> mapped()
{
  Out<d> r;
  const std::string D = std::to_string(d) + "D ";
  r.push_back({ "Square " + D, std::make_shared<funcs::Square<d>>(), square<d>, false });
  for (const auto &t : transfs<d>()) {
    const auto p = pull<d>(t.t);
    r.push_back({ "Square " + D + t.name, std::make_shared<funcs::Square<d>>(t.t), [p](const JV<d> &x) { return square<d>(p(x)); }, false });
  }
  for (int k = 0; k <= (1 << d); ++k) {
    std::array<real, (1 << d)> c{};
    for (int i = 0; i < (1 << d); ++i) c[i] = k == (1 << d) ? ((i * 5 + 2) % 7) - 2.5 : i == k;
    r.push_back({ vf::str("DimLinear ", D, k), std::make_shared<funcs::DimLinear<d>>(c), [c](const JV<d> &x) { return dimlin<d>(c, x); } });
    for (const auto &t : transfs<d>()) {
      const auto p = pull<d>(t.t);
      r.push_back({ vf::str("DimLinear ", D, k, " ", t.name), std::make_shared<funcs::DimLinear<d>>(c, t.t), [c, p](const JV<d> &x) { return dimlin<d>(c, p(x)); } });
    }
  }
  return r;
}
template<int d, template<int> class F> void tpms1(Out<d> &r, const std::string &name, std::function<Jet<d>(const std::array<Jet<d>, 3> &)> g)
{
  // g is given in terms of 2 pi m x, 2 pi n y, 2 pi q z
  const auto def = [g](std::array<double, 3> m, double z) {
    return Def<d>([=](const JV<d> &x) {
      std::array<Jet<d>, 3> a;
      for (int i = 0; i < 3; ++i) a[i] = (2 * M_PIl * m[i]) * (i < d ? x[i] : Jet<d>(z));
      return g(a);
    });
  };
  r.push_back({ name + " " + std::to_string(d) + "D", std::make_shared<F<d>>(), def({ 1, 1, 1 }, 0), true, 8 });
  for (const auto &m : { Vector<real, d>(1.0), [] { Vector<real, d> v; for (int i = 0; i < d; ++i) v(i) = 0.5 + i * 0.75; return v; }(), [] { Vector<real, d> v; for (int i = 0; i < d; ++i) v(i) = 2 - i * 0.5; return v; }() }) {
    if constexpr (d == 2) {
      for (const double z : { 0., 0.15, 0.5, -0.3 })
        r.push_back({ vf::str(name, s<2>(m), " z=", z), std::make_shared<F<2>>(m, z), def({ m(0), m(1), 1 }, z), true, 8 });
    } else
      r.push_back({ vf::str(name, s<3>(m)), std::make_shared<F<3>>(m), def({ m(0), m(1), m(2) }, 0), true, 8 });
  }
}
template<int d> Out<d> tpmss()
{
  Out<d> r;
  using A = std::array<Jet<d>, 3>;
  tpms1<d, tpms::Schoen>(r, "Schoen", [](const A &a) { return sn(a[0]) * cs(a[1]) + sn(a[1]) * cs(a[2]) + sn(a[2]) * cs(a[0]); });
  tpms1<d, tpms::SchoenIWP>(r, "SchoenIWP", [](const A &a) { return 2 * (cs(a[0]) * cs(a[1]) + cs(a[1]) * cs(a[2]) + cs(a[2]) * cs(a[0])) - cs(2 * a[0]) - cs(2 * a[1]) - cs(2 * a[2]); });
  tpms1<d, tpms::SchoenFRD>(r, "SchoenFRD", [](const A &a) { return 4 * (cs(a[0]) * cs(a[1]) * cs(a[2])) - cs(2 * a[0]) * cs(2 * a[1]) - cs(2 * a[1]) * cs(2 * a[2]) - cs(2 * a[2]) * cs(2 * a[0]); });
  tpms1<d, tpms::FischerKochS>(r, "FischerKochS", [](const A &a) { return cs(2 * a[0]) * sn(a[1]) * cs(a[2]) + cs(a[0]) * cs(2 * a[1]) * sn(a[2]) + sn(a[0]) * cs(a[1]) * cs(2 * a[2]); });
  tpms1<d, tpms::SchwarzDiamond>(r, "SchwarzDiamond", [](const A &a) { return cs(a[0]) * cs(a[1]) * cs(a[2]) - sn(a[0]) * sn(a[1]) * sn(a[2]); });
  tpms1<d, tpms::SchwarzPrimitive>(r, "SchwarzPrimitive", [](const A &a) { return cs(a[0]) + cs(a[1]) + cs(a[2]); });
  return r;
}
// every operation on every function of a family, to a depth
template<int d> Out<d> combined(const Out<d> &base, const Out<d> &other, const std::vector<Tr<d>> &ts)
{
  Out<d> r;
  for (const auto &a : base) {
    r.push_back({ "-(" + a.name + ")", std::make_shared<funcs::Negative<d>>(a.f), [f = a.def](const JV<d> &x) { return -1.0L * f(x); }, a.smooth, a.freq });
    for (const auto &t : ts)
      r.push_back({ t.name + "(" + a.name + ")", std::make_shared<funcs::TransformedFunction<d>>(a.f, t.t), [f = a.def, p = pull<d>(t.t)](const JV<d> &x) { return f(p(x)); }, a.smooth, a.freq * 2 });
    for (const auto &b : other) {
      r.push_back({ "(" + a.name + ")+(" + b.name + ")", std::make_shared<funcs::AddFunctions<d>>(a.f, b.f), [f = a.def, g = b.def](const JV<d> &x) { return f(x) + g(x); }, a.smooth && b.smooth, std::max(a.freq, b.freq) });
      r.push_back({ "(" + a.name + ")-(" + b.name + ")", std::make_shared<funcs::SubtractFunctions<d>>(a.f, b.f), [f = a.def, g = b.def](const JV<d> &x) { return f(x) - g(x); }, a.smooth && b.smooth, std::max(a.freq, b.freq) });
    }
  }
  return r;
}
template<int d> void all(const Out<d> &o)
{
  for (const auto &i : o) judge<d>(i);
}
// the value and derivatives of a function at a point, as they are
template<int d> std::vector<double> jet(const ImplicitFunc<d> &f, const Point<d> &p, int what)
{
  std::vector<double> r;
  if (what == 0) r.push_back(f(p));
  if (what == 1) {
    const auto g = f.grad(p);
    for (int i = 0; i < d; ++i) r.push_back(g(i));
  }
  if (what == 2) {
    const auto h = f.hessian(p);
    for (int i = 0; i < d * (d + 1) / 2; ++i) r.push_back(h(i));
  }
  return r;
}
bool alike(const std::vector<double> &a, const std::vector<double> &b)
{
  for (std::size_t i = 0; i < a.size(); ++i)
    if (a[i] != b[i] && !(std::isnan(a[i]) && std::isnan(b[i]))) return false;
  return true;
}
// every function evaluated right after every other one, at the same point
template<int d> void successions(const Out<d> &all)
{
  Out<d> o;
  for (const auto &i : all)
    if (i.smooth) o.push_back(i);// others have no Hessian
  for (const auto &p : lattice<d>({ 0.2, 0.77 }))
    for (int what = 0; what < 3; ++what) {
      if (!vf::want("succession", vf::str("successions of ", o.size(), " at ", s<d>(p), " of order ", what))) continue;
      vf::nontrivial();
      vf::guarded([&] {
        std::vector<std::vector<double>> alone;
        for (const auto &i : o) {
          Point<d> q;
          for (int k = 0; k < d; ++k) q(k) = 0.4321 + k;
          for (int w = 0; w < 3; ++w) jet<d>(*i.f, q, w);
          alone.push_back(jet<d>(*i.f, p, what));
        }
        for (std::size_t i = 0; i < o.size(); ++i)
          for (std::size_t j = i; j < o.size(); ++j)
            for (const auto k : { i, j })
              if (!vf::check(alike(jet<d>(*o[k].f, p, what), alone[k]), o[k].name, " is different after ", o[i].name, " or ", o[j].name)) return;
      });
    }
}
// a function that lives where another one did
template<int d, typename F, typename... A> void again(const std::string &name, const std::tuple<A...> &a, const std::tuple<A...> &b)
{
  for (int what = 0; what < 3; ++what) {
    if (!vf::want("again", vf::str("again ", name, " ", d, "D of order ", what))) continue;
    vf::nontrivial();
    vf::guarded([&] {
      const auto fresh = std::apply([](const auto &...x) { return std::make_shared<F>(x...); }, b);
      std::optional<F> o;
      for (const auto &p : lattice<d>({ -0.35, 0.2, 0.77 })) {
        std::apply([&o](const auto &...x) { o.emplace(x...); }, a);
        jet<d>(*o, p, what);
        o.reset();
        std::apply([&o](const auto &...x) { o.emplace(x...); }, b);
        const auto r = jet<d>(*o, p, what);
        if (!vf::check(alike(r, jet<d>(*fresh, p, what)), "depends on the function before it at ", s<d>(p))) return;
      }
    });
  }
}
template<int d> void agains()
{
  using P = Point<d>;
  using T = std::tuple<double, P>;
  const P c(0.3), e(0.6);
  again<d, funcs::Sphere<d>>("Sphere", T{ 0.5, c }, T{ 0.8, e });
  again<d, funcs::SphereBzr<d>>("SphereBzr", T{ 0.5, c }, T{ 0.8, e });
  again<d, funcs::Ellipsoid<d>>("Ellipsoid", std::tuple<P>{ c }, std::tuple<P>{ e });
  again<d, funcs::EllipsoidBzr<d>>("EllipsoidBzr", std::tuple<P>{ c }, std::tuple<P>{ e });
  again<d, funcs::Plane<d>>("Plane", std::tuple<P, P>{ c, c }, std::tuple<P, P>{ e, set_component<real, d>(0.0, 0, 1.0) });
  again<d, funcs::PlaneBzr<d>>("PlaneBzr", std::tuple<P, P>{ c, c }, std::tuple<P, P>{ e, set_component<real, d>(0.0, 0, 1.0) });
  using V = Vector<real, d>;
  const auto t = [](const auto &m, double z) {
    if constexpr (d == 2) return std::tuple<V, double>{ m, z };
    else return std::tuple<V>{ m };
  };
  const auto t1 = t(V(1.0), 0.15), t2 = t(V(0.75), 0.4);
  again<d, tpms::Schoen<d>>("Schoen", t1, t2);
  again<d, tpms::SchoenIWP<d>>("SchoenIWP", t1, t2);
  again<d, tpms::SchoenFRD<d>>("SchoenFRD", t1, t2);
  again<d, tpms::FischerKochS<d>>("FischerKochS", t1, t2);
  again<d, tpms::SchwarzDiamond<d>>("SchwarzDiamond", t1, t2);
  again<d, tpms::SchwarzPrimitive<d>>("SchwarzPrimitive", t1, t2);
  using A = AffineTransf<d>;
  using F = std::shared_ptr<const ImplicitFunc<d>>;
  const F f = std::make_shared<funcs::Sphere<d>>(0.5, c), g = std::make_shared<funcs::Sphere<d>>(0.7, e);
  again<d, funcs::TransformedFunction<d>>("Transformed", std::tuple<F, A>{ f, A(c) }, std::tuple<F, A>{ f, A(c, 2.0) });
  again<d, funcs::Negative<d>>("Negative", std::tuple<F>{ f }, std::tuple<F>{ g });
  again<d, funcs::AddFunctions<d>>("Sum", std::tuple<F, F>{ f, f }, std::tuple<F, F>{ f, g });
  again<d, funcs::SubtractFunctions<d>>("Difference", std::tuple<F, F>{ f, f }, std::tuple<F, F>{ f, g });
}
template<int d> void operations()
{
  Out<d> few;
  const auto pr = primitives<d>();
  const auto ma = mapped<d>();
  const auto tp = tpmss<d>();
  few.push_back(pr[2]);
  few.push_back(pr[pr.size() / 2]);
  few.push_back(tp[0]);
  few.push_back(tp[tp.size() - 1]);
  few.push_back(ma[1]);
  few.push_back(ma[ma.size() / 2]);
  if constexpr (d == 3) few.push_back(solids().back());
  else few.push_back(annuli().back());
  const auto ts = transfs<d>();
  const auto one = combined<d>(few, few, ts);
  all<d>(one);
  const std::vector<Tr<d>> ts2{ ts[ts.size() - 1], ts[ts.size() - 3] };
  const Out<d> oth{ few[0], few[2] };
  all<d>(combined<d>(one, vf::thorough ? few : oth, vf::thorough ? ts : ts2));
}
template<int d> void getters()
{
  for (const auto &c : places<d>())
    if (vf::want("data", vf::str("data ", d, s<d>(c)))) {
      vf::nontrivial();
      const auto same = [](const auto &a, const auto &b) {
        for (int i = 0; i < d; ++i)
          if (a(i) != b(i)) return false;
        return true;
      };
      const funcs::Sphere<d> a(0.7, c);
      const funcs::SphereBzr<d> b(0.7, c);
      vf::check(a.radius() == 0.7 && b.radius() == 0.7 && same(a.center(), c) && same(b.center(), c), "sphere");
      Point<d> ax(0.4);
      ax(d - 1) = 1.1;
      const RefSystem<d> y(c);
      const funcs::Ellipsoid<d> e(ax, y);
      const funcs::EllipsoidBzr<d> f(ax, y);
      vf::check(same(e.semi_axes(), ax) && same(f.semi_axes(), ax) && same(e.ref_system().get_origin(), c) && same(f.ref_system().get_origin(), c), "ellipsoid");
      const funcs::Plane<d> p(c, ax);
      vf::check(same(p.origin(), c), "plane");
      vf::check(funcs::Constant<d>(3.5).value() == 3.5 && funcs::Constant<d>().value() == 0.5, "constant");
      if constexpr (d == 2) {
        const funcs::Annulus n(0.2, 0.9, c);
        vf::check(n.inner_radius() == 0.2 && n.outer_radius() == 0.9 && same(n.center(), c), "annulus");
      } else {
        const funcs::Torus t(0.9, 0.2, c, Point<3>(0, 1, 0));
        vf::check(t.major_radius() == 0.9 && t.minor_radius() == 0.2 && same(t.center(), c) && same(t.axis(), Point<3>(0, 1, 0)), "torus");
        const funcs::Cylinder k(0.9, c, Point<3>(0, 1, 0));
        vf::check(k.radius() == 0.9 && same(k.origin(), c) && same(k.axis(), Point<3>(0, 1, 0)), "cylinder");
      }
    }
}
}// namespace
void run()
{
  all<2>(primitives<2>());
  all<3>(primitives<3>());
  all<2>(annuli());
  all<3>(solids());
  all<2>(mapped<2>());
  all<3>(mapped<3>());
  all<2>(tpmss<2>());
  all<3>(tpmss<3>());
  getters<2>();
  getters<3>();
  agains<2>();
  agains<3>();
  for (const bool mixed : { false, true }) {
    auto p2 = primitives<2>();
    auto p3 = primitives<3>();
    if (mixed) {
      p2 = annuli();
      p3 = solids();
      for (const auto &i : mapped<2>()) p2.push_back(i);
      for (const auto &i : mapped<3>()) p3.push_back(i);
      for (const auto &i : tpmss<2>()) p2.push_back(i);
      for (const auto &i : tpmss<3>()) p3.push_back(i);
    }
    successions<2>(p2);
    successions<3>(p3);
  }
  operations<2>();
  operations<3>();
}
