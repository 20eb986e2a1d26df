// C18: geometric helpers, on lattices of vectors, boxes, transformations, values and sets of points.
#include "vf.hpp"
#include <algorithm>
#include <array>
#include <qugar/affine_transf.hpp>
#include <qugar/bbox.hpp>
#include <qugar/point.hpp>
#include <qugar/ref_system.hpp>
#include <qugar/tolerance.hpp>
using namespace qugar;
namespace {
constexpr double TOL = 1e-11;
template<int d> std::vector<Point<d>> lattice(const std::vector<double> &v)
{
  std::vector<Point<d>> o;
  std::array<std::size_t, d> k{};
  while (true) {
    Point<d> p;
    for (int i = 0; i < d; ++i) p(i) = v[k[i]];
    o.push_back(p);
    int i = 0;
    while (i < d && ++k[i] == v.size()) k[i++] = 0;
    if (i == d) return o;
  }
}
template<typename V, int d> std::string sv(const V &p)
{
  std::string o = "(";
  for (int i = 0; i < d; ++i) o += (i ? "," : "") + vf::str(p(i));
  return o + ")";
}
template<int d> std::string s(const Point<d> &p) { return sv<Point<d>, d>(p); }
template<int d> double dist(const Point<d> &a, const Point<d> &b)
{
  double m = 0, sc = 1;
  for (int i = 0; i < d; ++i) {
    if (!std::isfinite(a(i)) || !std::isfinite(b(i))) return 1e300;
    m = std::max(m, std::abs(a(i) - b(i)));
    sc = std::max({ sc, std::abs(a(i)), std::abs(b(i)) });
  }
  return m / sc;
}
template<int d> bool same(const Point<d> &a, const Point<d> &b)
{
  for (int i = 0; i < d; ++i)
    if (a(i) != b(i)) return false;
  return true;
}
template<int d> double dt(const Point<d> &a, const Point<d> &b)
{
  double r = 0;
  for (int i = 0; i < d; ++i) r += a(i) * b(i);
  return r;
}
Point<3> cr(const Point<3> &a, const Point<3> &b) { return Point<3>(a(1) * b(2) - a(2) * b(1), a(2) * b(0) - a(0) * b(2), a(0) * b(1) - a(1) * b(0)); }
template<int d> Point<d> unit(Point<d> a)
{
  const double n = std::sqrt(dt<d>(a, a));
  for (int i = 0; i < d; ++i) a(i) /= n;
  return a;
}
template<int d> void orthonormal(const std::array<Point<d>, d> &b, const std::string &what)
{
  for (int i = 0; i < d; ++i)
    for (int j = 0; j <= i; ++j) vf::eq(dt<d>(b[i], b[j]), i == j, TOL, what, ": product of the axes ", i, " and ", j);
  if constexpr (d == 2) vf::eq(b[0](0) * b[1](1) - b[0](1) * b[1](0), 1, TOL, what, ": orientation");
  if constexpr (d == 3) vf::eq(dt<3>(cr(b[0], b[1]), b[2]), 1, TOL, what, ": orientation");
}
std::vector<Point<3>> axes()
{
  auto a = lattice<3>(vf::thorough ? std::vector<double>{ -2, -1, -0.5, 0, 0.3, 1, 4 } : std::vector<double>{ -2, -1, 0, 0.3, 1 });
  for (double e : { 1e-1, 9e-2, 1e-3, 2e-4, 9e-5, 1e-5, 1e-7 })// almost along an axis
    for (int k = 0; k < 3; ++k)
      for (int j = 0; j < 3; ++j)
        for (double sg : { -1.0, 1.0 })
          if (j != k) {
            Point<3> p(0.0);
            p(k) = sg * 3;
            p(j) = sg * 3 * e;
            a.push_back(p);
            p((3 - k - j)) = -e;
            a.push_back(p);
          }
  for (double m : { 1e-3, 1e6 })
    for (const auto &p : lattice<3>({ -1, 0, 1 })) a.push_back(Point<3>(p * m));
  std::erase_if(a, [](const auto &p) { return dt<3>(p, p) == 0; });
  return a;
}

void systems()
{
  const Point<3> o3(0.5, -2.0, 7.0);
  for (const auto &a : axes())
    if (vf::want("axis", vf::str("axis3", s<3>(a)))) {
      vf::nontrivial();
      const Point<3> keep = a;
      const impl::RefSystem<3> R(o3, a);
      orthonormal<3>(R.get_basis(), "system around an axis");
      vf::check(dist<3>(R.get_basis()[2], unit<3>(a)) < TOL, "the z axis is ", s<3>(R.get_basis()[2]));
      vf::check(same<3>(R.get_origin(), o3), "origin");
      const bool cart = dist<3>(R.get_basis()[0], { 1, 0, 0 }) < 1e-13 && dist<3>(R.get_basis()[1], { 0, 1, 0 }) < 1e-13 && dist<3>(R.get_basis()[2], { 0, 0, 1 }) < 1e-13;
      const bool clear = cart || dist<3>(R.get_basis()[2], { 0, 0, 1 }) > 1e-4 || dist<3>(R.get_basis()[0], { 1, 0, 0 }) > 1e-4;
      if (clear) vf::check(R.is_Cartesian_oriented() == cart, "is_Cartesian_oriented is ", !cart);
      const auto xy = impl::create_reference_system_around_axis(a);
      orthonormal<3>({ xy.first, xy.second, unit<3>(a) }, "create_reference_system_around_axis");
      vf::check(same<3>(a, keep), "the axis is changed");
    }
  const auto ax = lattice<3>({ -1, 0, 0.5, 2 });
  for (const auto &a : ax)
    for (const auto &b : ax) {
      const auto c = cr(a, b);
      if (dt<3>(c, c) < 1e-12 || !vf::want("two axes", vf::str("axes", s<3>(a), s<3>(b)))) continue;
      vf::nontrivial();
      const impl::RefSystem<3> R(o3, a, b);
      const auto &B = R.get_basis();
      orthonormal<3>(B, "system of two axes");
      vf::check(dist<3>(B[0], unit<3>(a)) < TOL, "the x axis is ", s<3>(B[0]));
      vf::check(dist<3>(B[2], unit<3>(c)) < TOL, "the z axis is ", s<3>(B[2]));
      vf::check(same<3>(R.get_origin(), o3), "origin");
      // the same in an affine transformation, with its scales
      for (int k = 0; k < 2; ++k) {
        const Point<3> sc = k ? Point<3>(0.5, 2.0, 3.0) : Point<3>(1.0, 1.0, 1.0);
        const auto T = k ? impl::AffineTransf<3>(o3, a, b, sc(0), sc(1), sc(2)) : impl::AffineTransf<3>(o3, a, b);
        vf::check(dist<3>(T.transform_point(Point<3>(0.0)), o3) < TOL, "the origin of the transformation");
        for (int i = 0; i < 3; ++i) {
          Point<3> e(0.0), w;
          e(i) = 1;
          for (int j = 0; j < 3; ++j) w(j) = o3(j) + sc(i) * B[i](j);
          vf::check(dist<3>(T.transform_point(e), w) < TOL, "the image of the axis ", i, " is ", s<3>(T.transform_point(e)), " instead of ", s<3>(w));
        }
      }
    }
  for (const auto &a : lattice<2>({ -3, -1, -0.25, 0, 1e-4, 1, 2 })) {
    if (dt<2>(a, a) == 0 || !vf::want("axis", vf::str("axis2", s<2>(a)))) continue;
    vf::nontrivial();
    const Point<2> o(1.0, -2.0);
    const impl::RefSystem<2> R(o, a);
    orthonormal<2>(R.get_basis(), "plane system");
    vf::check(dist<2>(R.get_basis()[0], unit<2>(a)) < TOL && same<2>(R.get_origin(), o), "x axis or origin of the plane system");
    vf::check(R.is_Cartesian_oriented() == (dist<2>(R.get_basis()[0], { 1, 0 }) < 1e-9), "is_Cartesian_oriented");
    for (int k = 0; k < 2; ++k) {
      const Point<2> sc = k ? Point<2>(0.5, 3.0) : Point<2>(1.0, 1.0);
      const auto T = k ? impl::AffineTransf<2>(o, a, sc(0), sc(1)) : impl::AffineTransf<2>(o, a);
      vf::check(dist<2>(T.transform_point(Point<2>(0.0, 0.0)), o) < TOL, "the origin of the transformation");
      for (int i = 0; i < 2; ++i) {
        Point<2> e(0.0, 0.0), w;
        e(i) = 1;
        for (int j = 0; j < 2; ++j) w(j) = o(j) + sc(i) * R.get_basis()[i](j);
        vf::check(dist<2>(T.transform_point(e), w) < TOL, "the image of the axis ", i, " is ", s<2>(T.transform_point(e)));
      }
    }
  }
  if (vf::want("axis", "axis1")) {
    vf::nontrivial();
    for (double v : { -3.0, 0.2, 1.0 }) {
      const impl::RefSystem<1> R(Point<1>(4.0), Point<1>(v));
      vf::eq(R.get_basis()[0](0), v > 0 ? 1 : -1, TOL, "axis of a line");
      vf::eq(R.get_origin()(0), 4, TOL, "origin of a line");
      vf::check(R.is_Cartesian_oriented() == (v > 0), "is_Cartesian_oriented of a line");
    }
    const impl::RefSystem<3> D3;
    const impl::RefSystem<2> D2;
    const impl::RefSystem<1> D1;
    const impl::RefSystem<3> O3(o3);
    vf::check(D1.is_Cartesian_oriented() && D2.is_Cartesian_oriented() && D3.is_Cartesian_oriented() && O3.is_Cartesian_oriented(), "default systems are Cartesian");
    orthonormal<3>(D3.get_basis(), "default");
    orthonormal<2>(D2.get_basis(), "default");
    vf::check(same<3>(D3.get_origin(), Point<3>(0.0)) && same<3>(O3.get_origin(), o3) && same<2>(D2.get_origin(), Point<2>(0.0)), "default origins");
  }
}

template<int d> std::vector<Vector<double, d *(d + 1)>> matrices()
{
  std::vector<Vector<double, d *(d + 1)>> o;
  const auto vals = d == 2 ? std::vector<double>{ -1, 0, 0.5, 2 } : std::vector<double>{ 0, 1 };
  std::array<std::size_t, d * d> k{};
  while (true) {
    Vector<double, d *(d + 1)> c;
    for (int i = 0; i < d * d; ++i) c(i) = vals[k[i]] * (d == 3 && i % 2 ? -1.5 : 1) + (d == 3 && k[i] && i == 4 ? 2 : 0);
    for (int i = 0; i < d; ++i) c(d * d + i) = 0.5 * i - 0.75;
    double det;
    if (d == 2)
      det = c(0) * c(3) - c(1) * c(2);
    else
      det = c(0) * (c(4) * c(8) - c(7) * c(5)) - c(1) * (c(3) * c(8) - c(5) * c(6)) + c(2) * (c(3) * c(7) - c(4) * c(6));
    if (std::abs(det) > 1e-6) o.push_back(c);
    int i = 0;
    while (i < d * d && ++k[i] == vals.size()) k[i++] = 0;
    if (i == d * d) return o;
  }
}
template<int d> Point<d> apply(const Vector<double, d *(d + 1)> &c, const Point<d> &x)
{
  Point<d> y;
  for (int i = 0; i < d; ++i) {
    y(i) = c(d * d + i);
    for (int j = 0; j < d; ++j) y(i) += c(d * i + j) * x(j);
  }
  return y;
}
template<int d> int sym(int i, int j)
{
  if (i > j) std::swap(i, j);
  return d == 2 ? i + j : (i == 0 ? j : i + j + 1);
}

template<int d> void affine()
{
  using T = impl::AffineTransf<d>;
  const auto M = matrices<d>();
  const auto pts = lattice<d>({ -1, 0, 2.5 });
  constexpr int ns = d * (d + 1) / 2;
  for (std::size_t m = 0; m < M.size(); ++m)
    if (vf::want("transformation", vf::str("affine", d, sv<Vector<double, d *(d + 1)>, d *(d + 1)>(M[m])))) {
      vf::nontrivial();
      const T A(M[m]);
      const T I = A.inverse();
      for (const auto &p : pts) {
        const Point<d> q = p;
        vf::check(dist<d>(A.transform_point(p), apply<d>(M[m], p)) < TOL, "image of ", s<d>(p), " is ", s<d>(A.transform_point(p)));
        vf::check(dist<d>(I.transform_point(A.transform_point(p)), p) < 1e-9 && dist<d>(A.transform_point(I.transform_point(p)), p) < 1e-9, "the inverse does not bring ", s<d>(p), " back");
        vf::check(same<d>(p, q), "the point is changed");
      }
      // f(y) = c y y / 2 + g y for every basic quadratic: gradient and Hessian of f(A x)
      for (int k = 0; k < ns; ++k)
        for (const auto &p : pts) {
          Vector<double, ns> H(0.0);
          H(k) = 1;
          const auto full = [&](int i, int j) { return H(sym<d>(i, j)); };
          const auto y = apply<d>(M[m], p);
          Point<d> g, wg;
          for (int i = 0; i < d; ++i) {
            g(i) = 0.25 * (i + 1);
            for (int j = 0; j < d; ++j) g(i) += full(i, j) * y(j);
          }
          Vector<double, ns> wh(0.0);
          for (int a = 0; a < d; ++a) {
            wg(a) = 0;
            for (int i = 0; i < d; ++i) wg(a) += M[m](d * i + a) * g(i);
            for (int b = a; b < d; ++b) {
              double v = 0;
              for (int i = 0; i < d; ++i)
                for (int j = 0; j < d; ++j) v += full(i, j) * M[m](d * i + a) * M[m](d * j + b);
              wh(sym<d>(a, b)) = v;
            }
          }
          vf::check(dist<d>(A.transform_vector(g), wg) < TOL, "gradient ", s<d>(g), " becomes ", s<d>(A.transform_vector(g)), " instead of ", s<d>(wg));
          vf::check(dist<ns>(A.template transform_tensor<double>(H), wh) < TOL, "Hessian component ", k, " becomes ", sv<Vector<double, ns>, ns>(A.template transform_tensor<double>(H)), " instead of ", sv<Vector<double, ns>, ns>(wh));
        }
      const std::size_t step = vf::thorough ? 1 : std::max<std::size_t>(1, M.size() / 40);
      for (std::size_t n = m % step; n < M.size(); n += step) {
        const T B(M[n]);
        const T C = A * B;
        for (const auto &p : pts) {
          vf::check(dist<d>(C.transform_point(p), apply<d>(M[m], apply<d>(M[n], p))) < TOL, "product with ", n, " at ", s<d>(p));
          vf::check(dist<d>(C.transform_vector(p), B.transform_vector(A.transform_vector(p))) < TOL, "gradient under the product with ", n);
        }
        vf::check(dist<d>((C * B.inverse() * A.inverse()).transform_point(pts[1]), pts[1]) < 1e-8, "products and inverses with ", n);
      }
    }
  for (double sc : { 0.25, 1.0, 3.0 })
    if (vf::want("transformation", vf::str("scale", d, ":", sc))) {
      vf::nontrivial();
      Point<d> o;
      for (int i = 0; i < d; ++i) o(i) = i - 0.5;
      for (const auto &p : pts) {
        Point<d> w, w1;
        for (int i = 0; i < d; ++i) { w(i) = o(i) + sc * p(i); w1(i) = o(i) + p(i); }
        vf::check(dist<d>(T(o, sc).transform_point(p), w) < TOL, "scaled translation of ", s<d>(p));
        vf::check(dist<d>(T(o).transform_point(p), w1) < TOL, "translation of ", s<d>(p));
        vf::check(dist<d>(T().transform_point(p), p) < TOL, "identity of ", s<d>(p));
        vf::check(dist<d>((T() * T(o, sc)).transform_point(p), w) < TOL && dist<d>((T(o, sc) * T()).transform_point(p), w) < TOL, "product with the identity");
      }
    }
}

template<int d> bool inside(const BoundBox<d> &b, const Point<d> &p)
{
  for (int i = 0; i < d; ++i)
    if (p(i) < b.min(i) || p(i) > b.max(i)) return false;
  return true;
}
template<int d> void boxes()
{
  const std::vector<std::array<double, 2>> I = { { 0, 1 }, { -1, 0 }, { -0.5, 2 }, { 1, 1 }, { 3, 1e3 } };
  std::vector<std::pair<Point<d>, Point<d>>> B;
  std::array<std::size_t, d> k{};
  while (true) {
    Point<d> a, b;
    for (int i = 0; i < d; ++i) { a(i) = I[k[i]][0]; b(i) = I[k[i]][1]; }
    B.emplace_back(a, b);
    int i = 0;
    while (i < d && ++k[i] == I.size()) k[i++] = 0;
    if (i == d) break;
  }
  const auto pts = lattice<d>({ -2, 0, 0.75, 5 });
  for (std::size_t n = 0; n < B.size(); ++n) {
    const auto [lo, hi] = B[n];
    if (!vf::want("box", vf::str("box", d, s<d>(lo), s<d>(hi)))) continue;
    vf::nontrivial();
    std::array<double, d> al, ah;
    for (int i = 0; i < d; ++i) { al[i] = lo(i); ah[i] = hi(i); }
    const BoundBox<d> b(lo, hi), b2(al, ah), b4(b.to_hyperrectangle());
    BoundBox<d> b3;
    for (int i = 0; i < d; ++i) vf::check(b3.min(i) == 0 && b3.max(i) == 1, "the default box is not the unit one");
    b3.set(lo, hi);
    double vol = 1;
    bool flat = false;
    const auto hr = b.to_hyperrectangle();
    for (int i = 0; i < d; ++i) {
      const double L = hi(i) - lo(i);
      vol *= L;
      flat = flat || L == 0;
      for (const BoundBox<d> *x : { &b, &b2, (const BoundBox<d> *)&b3, &b4 }) vf::check(x->min(i) == lo(i) && x->max(i) == hi(i) && x->min_corner()(i) == lo(i) && x->max_corner()(i) == hi(i), "bounds along ", i);
      vf::check(b.length(i) == L && b.get_lengths()(i) == L, "length along ", i);
      vf::eq(b.mid_point()(i), 0.5 * (lo(i) + hi(i)), TOL, "middle along ", i);
      vf::check(hr.min(i) == lo(i) && hr.max(i) == hi(i), "hyper-rectangle along ", i);
    }
    vf::eq(b.volume(), vol, TOL, "volume");
    if constexpr (d == 1) vf::check(b.min() == lo(0) && b.max() == hi(0) && b.length() == hi(0) - lo(0), "one-dimensional bounds");
    for (double e : { 0.0, 0.5, 2.0 }) {
      const auto g = b.extend(e);
      for (int i = 0; i < d; ++i) vf::check(vf::near(g.min(i), lo(i) - e) && vf::near(g.max(i), hi(i) + e), "enlarged by ", e, " along ", i);
    }
    for (const auto &p : pts) {
      BoundBox<d> g = b;
      g.extend(p);
      vf::check(inside<d>(g, p) && inside<d>(g, lo) && inside<d>(g, hi), "extended to ", s<d>(p), " it does not contain it");
      for (int i = 0; i < d; ++i) vf::check(g.min(i) == std::min(lo(i), p(i)) && g.max(i) == std::max(hi(i), p(i)), "extended to ", s<d>(p), " it is larger than needed");
      if (flat) continue;
      const auto u = b.scale_to_0_1(p);
      const auto q = b.scale_from_0_1(p);
      for (int i = 0; i < d; ++i) {
        vf::eq(u(i), (p(i) - lo(i)) / (hi(i) - lo(i)), TOL, "to the unit box along ", i);
        vf::eq(q(i), lo(i) + (hi(i) - lo(i)) * p(i), TOL, "from the unit box along ", i);
      }
      vf::check(dist<d>(b.scale_from_0_1(u), p) < TOL && dist<d>(b.scale_to_0_1(q), p) < TOL, "to the unit box and back");
      const std::size_t step = std::max<std::size_t>(1, B.size() / 25);
      for (std::size_t m = 0; m < B.size(); m += step) {
        const BoundBox<d> c(B[m].first, B[m].second);
        const auto w = b.scale_to_new_domain(c, p);
        for (int i = 0; i < d; ++i) vf::eq(w(i), c.min(i) + (p(i) - lo(i)) / (hi(i) - lo(i)) * c.length(i), TOL, "to another box along ", i);
      }
    }
    if constexpr (d > 1) {
      for (int c = 0; c < d; ++c) {
        const auto f = b.slice(c);
        for (int i = 0, j = 0; i < d; ++i)
          if (i != c) {
            vf::check(f.min(j) == lo(i) && f.max(j) == hi(i), "slice along ", c);
            ++j;
          }
      }
    }
    if constexpr (d > 1) {
      if (n == 0) {
        const BoundBox<d> cube(-2.0, 3.5);
        for (int i = 0; i < d; ++i) vf::check(cube.min(i) == -2 && cube.max(i) == 3.5, "box of two numbers");
      }
    }
  }
}

void tolerances()
{
  const std::vector<double> tv = { 0, 1e-15, 1e-10, 1e-4, 0.5 };
  std::vector<double> v = { 0, 1e-16, 1e-11, 0.9e-10, 1.1e-10, 1e-5, 3e-4, 0.2, 0.45, 1, 1 + 0.9e-10, 1 + 2e-10, 1.00005, 1.4, 1.7, 3, 1e6, 1e6 + 1e-5, 1e6 + 40, 1e6 + 400 };
  for (auto n = v.size(); n-- > 0;) v.push_back(-v[n]);
  for (double t : tv) {
    const Tolerance tol(t);
    for (double a : v)
      for (double b : v) {
        if (!vf::want("comparison", vf::str("tol", t, ":", a, ":", b))) continue;
        if (a != b) vf::nontrivial();
        const double D = std::abs(a - b), mx = std::max(std::abs(a), std::abs(b));
        vf::check(tol.value() == t, "value");
        const bool eq = D <= t, gt = a - b > t, lt = b - a > t;
        vf::check(tol.equal(a, b) == eq && tol.equal(b, a) == eq, "equal");
        vf::check(tol.greater_than(a, b) == gt && tol.smaller_than(b, a) == gt, "greater_than");
        vf::check(tol.smaller_than(a, b) == lt && tol.greater_than(b, a) == lt, "smaller_than");
        vf::check(int(tol.equal(a, b)) + tol.greater_than(a, b) + tol.smaller_than(a, b) == 1, "not exactly one of equal, greater and smaller");
        vf::check(tol.greater_equal_than(a, b) == (eq || gt) && tol.smaller_equal_than(a, b) == (eq || lt), "greater_equal_than, smaller_equal_than");
        const bool er = D <= mx * t, gr = a - b > mx * t, lr = b - a > mx * t;
        vf::check(tol.equal_rel(a, b) == er && tol.equal_rel(b, a) == er, "equal_rel");
        vf::check(tol.greater_than_rel(a, b) == gr && tol.smaller_than_rel(b, a) == gr && tol.smaller_than_rel(a, b) == lr && tol.greater_than_rel(b, a) == lr, "greater_than_rel, smaller_than_rel");
        vf::check(int(tol.equal_rel(a, b)) + tol.greater_than_rel(a, b) + tol.smaller_than_rel(a, b) == 1, "not exactly one of the relative comparisons");
        for (double r : tv) {
          const Tolerance rel(r);
          const double lim = t + r * mx;
          if (std::abs(D - lim) > 1e-14 * (mx + lim)) vf::check(tol.equal_rel(a, b, rel) == (D <= lim) && tol.equal_rel(b, a, rel) == (D <= lim), "equal_rel with two tolerances, ", r);
        }
        vf::check(tol.is_zero(a) == (std::abs(a) <= t), "is_zero");
        vf::check(tol.is_positive(a) == (a > t), "is_positive");
        if (a != -t) vf::check(tol.is_negative(a) == (a < -t), "is_negative");
        vf::check(tol.is_positive(-a) == tol.is_negative(a) || a == -t, "is_positive and is_negative disagree");
        Point<2> p(a, 1.0), q(b, 1.0);
        vf::check(tol.coincident(p, q) == eq && tol.coincident(q, p) == eq, "coincident in the plane");
        vf::check(tol.coincident(Point<3>(0.0, 2.0, a), Point<3>(0.0, 2.0, b)) == eq && tol.coincident(Point<3>(0.0, a, 2.0), Point<3>(0.0, b, 2.0)) == eq, "coincident in space");
      }
    for (double u : tv)
      if (vf::want("tolerance", vf::str("update", t, ":", u))) {
        if (t != u) vf::nontrivial();
        Tolerance x(t), y(t);
        x.update(u);
        y.update(Tolerance(u));
        const double w = std::max(t, u);
        vf::check(x.value() == w && y.value() == w && Tolerance(t, u).value() == w && Tolerance(Tolerance(t), Tolerance(u)).value() == w, "the largest of two tolerances");
        vf::check(Tolerance().value() > 0 && Tolerance().value() < 1e-10, "default tolerance");
      }
  }
}

// every sequence of up to n of m clusters, with every member of a cluster near its centre
void uniques()
{
  const double t = 1e-6;
  const Tolerance tol(t);
  const std::vector<double> base = { 0, -3, 1, 1 + 3e-6 }, jit = { 0, 0.3e-6, -0.3e-6 };
  std::vector<double> all;
  for (double b : base)
    for (double j : jit) all.push_back(b + j);
  const std::size_t n = vf::thorough ? 5 : 4;
  for (std::size_t len = 0; len <= n; ++len) {
    std::vector<std::size_t> k(len, 0);
    while (true) {
      std::string key = "unique";
      for (auto i : k) key += "," + std::to_string(i);
      if (vf::want("values", key)) {
        std::vector<double> v;
        std::set<std::size_t> cl;
        for (auto i : k) { v.push_back(all[i]); cl.insert(i / 3); }
        if (cl.size() < len) vf::nontrivial();
        auto u = v;
        tol.unique(u);
        vf::check(u.size() == cl.size(), u.size(), " values are kept of ", cl.size(), " clusters");
        vf::check(std::is_sorted(u.begin(), u.end()), "not sorted");
        for (double x : u) vf::check(std::count(v.begin(), v.end(), x) > 0, "a value that was not there");
        for (double x : v) vf::check(std::count_if(u.begin(), u.end(), [&](double y) { return tol.equal(x, y); }) == 1, "a value without one representative");
        for (std::size_t i = 1; i < u.size(); ++i) vf::check(!tol.equal(u[i - 1], u[i]), "two equal values are kept");
      }
      std::size_t i = 0;
      while (i < len && ++k[i] == all.size()) k[i++] = 0;
      if (i == len) break;
    }
  }
}
template<int d> void points()
{
  const double t = 1e-6;
  const Tolerance tol(t);
  // clusters that share coordinates; members within 0.3 tolerances of the centre
  std::vector<Point<d>> all;
  std::vector<Point<d>> base;
  if constexpr (d == 2)
    base = { { 0, 0 }, { 1, 0 }, { 0, 1 }, { 1, 1 }, { 1 + 3e-6, 1 } };
  else
    base = { { 0, 0, 0 }, { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { 1, 0, 1 }, { 1, 1 + 3e-6, 0 } };
  for (const auto &b : base)
    for (int j = 0; j < 3; ++j) {
      Point<d> p = b;
      if (j == 1)
        for (int i = 0; i < d; ++i) p(i) += 0.3e-6 * (i % 2 ? -1 : 1);
      if (j == 2)
        for (int i = 0; i < d; ++i) p(i) -= 0.2e-6 * (i % 2 ? -1 : 1);
      all.push_back(p);
    }
  const std::size_t n = vf::thorough ? 5 : 4;
  for (std::size_t len = 0; len <= n; ++len) {
    std::vector<std::size_t> k(len, 0);
    while (true) {
      std::string key = vf::str("points", d);
      for (auto i : k) key += "," + std::to_string(i);
      if (vf::want("points", key)) {
        std::vector<Point<d>> v;
        std::set<std::size_t> cl;
        for (auto i : k) { v.push_back(all[i]); cl.insert(i / 3); }
        if (cl.size() < len) vf::nontrivial();
        const auto keep = v;
        std::vector<std::size_t> map{ 99, 98 }, otn{ 97 };
        find_coincident_points<d>(v, tol, map);
        vf::check(map.size() == len, "the map has ", map.size(), " entries");
        for (std::size_t i = 0; i < len && !vf::failed; ++i) {
          vf::check(same<d>(v[i], keep[i]), "the points are changed");
          vf::check(map[i] < len, "point ", i, " is mapped to ", map[i]);
          if (vf::failed) break;
          vf::check(map[map[i]] == map[i], "point ", i, " is mapped to one that is mapped to another");
          for (std::size_t j = 0; j < i; ++j) vf::check((map[i] == map[j]) == (k[i] / 3 == k[j] / 3), "points ", j, " and ", i, " are mapped to ", map[j], " and ", map[i]);
        }
        if (!vf::failed) {
          make_points_unique<d>(v, tol, otn);
          vf::check(v.size() == cl.size(), v.size(), " points are kept of ", cl.size(), " clusters");
          vf::check(otn.size() == len, "old to new has ", otn.size(), " entries");
          std::set<std::size_t> used;
          for (std::size_t i = 0; i < len && !vf::failed; ++i) {
            if (!vf::check(otn[i] < v.size(), "point ", i, " gets the new number ", otn[i])) break;
            used.insert(otn[i]);
            vf::check(tol.coincident(v[otn[i]], keep[i]), "point ", i, " goes to another place");
          }
          if (!vf::failed) vf::check(used.size() == v.size(), "a point without any old one");
          for (const auto &p : v) vf::check(std::any_of(keep.begin(), keep.end(), [&](const auto &q) { return same<d>(p, q); }), "a point that was not there");
        }
      }
      std::size_t i = 0;
      while (i < len && ++k[i] == all.size()) k[i++] = 0;
      if (i == len) break;
    }
  }
  // larger sets: every rotation of the whole lattice with duplicates
  for (std::size_t r = 0; r < all.size(); ++r)
    for (std::size_t st : { 1u, 5u, 7u }) {
      if (!vf::want("points", vf::str("rotation", d, ":", r, ":", st))) continue;
      vf::nontrivial();
      std::vector<Point<d>> v;
      std::vector<std::size_t> c, map;
      for (std::size_t i = 0; i < 2 * all.size(); ++i) { c.push_back((r + i * st) % all.size()); v.push_back(all[c.back()]); }
      find_coincident_points<d>(v, tol, map);
      for (std::size_t i = 0; i < v.size(); ++i)
        for (std::size_t j = 0; j < i; ++j) vf::check((map[i] == map[j]) == (c[i] / 3 == c[j] / 3), "points ", j, " and ", i, " are mapped to ", map[j], " and ", map[i]);
    }
}
}// namespace
void run()
{
  systems();
  affine<2>();
  affine<3>();
  boxes<1>();
  boxes<2>();
  boxes<3>();
  tolerances();
  uniques();
  points<2>();
  points<3>();
}
