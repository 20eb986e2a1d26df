// C15: every tabulated rule against its definition, in long double; tensor products over boxes.
#include "vf.hpp"
#include <array>
#include <qugar/bbox.hpp>
#include <qugar/point.hpp>
#include <qugar/quadrature.hpp>
using namespace qugar;
namespace {
using ld = long double;
ld lambert(ld z)
{
  ld w = std::log(1 + z);
  for (int i = 0; i < 60; ++i) w -= (w * std::exp(w) - z) / (std::exp(w) * (w + 1));
  return w;
}
// the points and weights by definition: roots of the Legendre polynomial, and the double exponential rule of
// step 2 W(0.6 pi (n - 1)) / n with weights scaled to one
void gauss(int n, std::vector<ld> &x, std::vector<ld> &w)
{
  x.assign(n, 0);
  w.assign(n, 0);
  for (int i = 0; i < n; ++i) {
    ld z = -std::cos(M_PIl * (i + 0.75L) / (n + 0.5L)), dp = 1;
    for (int it = 0; it < 100; ++it) {
      ld p0 = 1, p1 = z;
      for (int k = 2; k <= n; ++k) {
        const ld p2 = ((2 * k - 1) * z * p1 - (k - 1) * p0) / k;
        p0 = p1;
        p1 = p2;
      }
      dp = n * (z * p1 - p0) / (z * z - 1);
      const ld st = p1 / dp;
      z -= st;
      if (std::abs(st) < 1e-19L) break;
    }
    x[i] = (1 + z) / 2;
    w[i] = 1 / ((1 - z * z) * dp * dp);
  }
}
void tanhsinh(int n, std::vector<ld> &x, std::vector<ld> &w)
{
  x.assign(n, 0.5L);
  w.assign(n, 1);
  if (n == 1) return;
  const ld h = 2 * lambert(0.6L * M_PIl * (n - 1)) / n;
  ld sum = 0;
  for (int k = 0; k < n; ++k) {
    const ld t = (k - (n - 1) / 2.0L) * h, u = M_PIl / 2 * std::sinh(t);
    x[k] = 1 / (1 + std::exp(-2 * u));
    const ld e = std::exp(-2 * std::abs(u));
    w[k] = std::cosh(t) * 4 * e / ((1 + e) * (1 + e));
    sum += w[k];
  }
  for (auto &v : w) v /= sum;
}

template<typename Q> void table(const char *name, bool exact)
{
  for (int n = 1; n <= Q::n_max; ++n) {
    if (!vf::want("rule", vf::str(name, n))) continue;
    vf::nontrivial();
    std::vector<ld> X, W, x, w;
    exact ? gauss(n, X, W) : tanhsinh(n, X, W);
    ld sum = 0;
    for (int i = 0; i < n; ++i) {
      x.push_back(Q::get_abscissa(n, i));
      w.push_back(Q::get_weight(n, i));
      sum += w[i];
    }
    vf::check(std::abs(sum - 1) < 1e-14L, "the weights add up to ", sum);
    for (int i = 0; i < n; ++i) {
      vf::check(w[i] > 0, "weight ", i, " is ", w[i]);
      vf::check(exact ? x[i] > 0 && x[i] < 1 : x[i] >= 0 && x[i] <= 1, "point ", i, " is ", x[i]);
      if (i) vf::check(exact ? x[i] > x[i - 1] : x[i] >= x[i - 1], "points ", i - 1, " and ", i, " are not in order");
      vf::check(std::abs(x[i] + x[n - 1 - i] - 1) < 3e-16L && std::abs(w[i] - w[n - 1 - i]) < 1e-16L, "points ", i, " and ", n - 1 - i, " are not symmetric");
      vf::check(std::abs(x[i] - X[i]) < 2e-16L, "point ", i, " is ", x[i], " instead of ", X[i]);
      vf::check(std::abs(w[i] - W[i]) < 2e-16L, "weight ", i, " is ", w[i], " instead of ", W[i]);
      if (!exact && X[i] < 0.25L) vf::check(std::abs(x[i] - X[i]) < 1e-13L * X[i] && std::abs(w[i] - W[i]) < 1e-12L * W[i], "point or weight ", i, " near the end: ", x[i], " and ", w[i], " instead of ", X[i], " and ", W[i]);
    }
    if (exact) {
      // the orthogonal polynomials of degree 1 to 2n - 1 integrate to zero
      std::vector<ld> s(2 * n, 0);
      for (int i = 0; i < n; ++i) {
        const ld z = 2 * x[i] - 1;
        ld p0 = 1, p1 = z;
        for (int k = 1; k < 2 * n; ++k) {
          s[k] += w[i] * p1;
          const ld p2 = ((2 * k + 1) * z * p1 - k * p0) / (k + 1);
          p0 = p1;
          p1 = p2;
        }
      }
      for (int k = 1; k < 2 * n; ++k) vf::check(std::abs(s[k]) < 2e-14L, "the Legendre polynomial of degree ", k, " integrates to ", s[k]);
    }
  }
}

template<int d> Point<d> mk(const std::array<double, d> &a)
{
  Point<d> p;
  for (int i = 0; i < d; ++i) p(i) = a[i];
  return p;
}
template<int d, typename Q> void products(const char *name, bool exact)
{
  using Quad = Quadrature<d>;
  const std::vector<std::array<double, 2>> I = { { 0, 1 }, { -3, -1 }, { 0.5, 0.75 }, { 10, 14 } };
  const int nmax = vf::thorough ? (d == 3 ? 5 : 9) : (d == 3 ? 4 : 6);
  std::array<int, d> n, k;
  n.fill(1);
  while (true) {
    k.fill(0);
    while (true) {
      std::string key = name;
      std::array<double, d> lo, hi;
      double vol = 1;
      for (int i = 0; i < d; ++i) {
        lo[i] = I[k[i]][0];
        hi[i] = I[k[i]][1];
        vol *= hi[i] - lo[i];
        key += vf::str(":", n[i], "[", lo[i], ",", hi[i], "]");
      }
      if (vf::want("product", key)) {
        vf::nontrivial();
        const BoundBox<d> box(mk<d>(lo), mk<d>(hi));
        const auto q = exact ? Quad::create_Gauss(n, box) : Quad::create_tanh_sinh(n, box);
        std::size_t tot = 1;
        for (int i = 0; i < d; ++i) tot *= n[i];
        const Quad &cq = *q;
        if (vf::check(cq.get_num_points() == tot && cq.points().size() == tot && cq.weights().size() == tot, "number of points")) {
          double sum = 0;
          for (std::size_t f = 0; f < tot; ++f) {
            std::size_t r = f;
            double w = 1;
            for (int i = 0; i < d; ++i) {
              const int a = r % n[i];
              r /= n[i];
              w *= Q::get_weight(n[i], a) * (hi[i] - lo[i]);
              const double x = lo[i] + (hi[i] - lo[i]) * Q::get_abscissa(n[i], a);
              vf::eq(cq.points()[f](i), x, 1e-13, "coordinate ", i, " of point ", f);
            }
            vf::eq(cq.weights()[f], w, 1e-13, "weight ", f);
            sum += cq.weights()[f];
          }
          vf::eq(sum, vol, 1e-12, "the weights add up");
          bool unit = true, iso = true;
          for (int i = 0; i < d; ++i) {
            unit = unit && k[i] == 0;
            iso = iso && n[i] == n[0];
          }
          const auto same = [&](const Quad &o, const char *what) {
            bool ok = o.get_num_points() == tot;
            for (std::size_t f = 0; ok && f < tot; ++f) {
              ok = o.weights()[f] == cq.weights()[f];
              for (int i = 0; i < d; ++i) ok = ok && o.points()[f](i) == cq.points()[f](i);
            }
            vf::check(ok, what);
          };
          if (unit) {
            same(exact ? *Quad::create_Gauss_01(n) : *Quad::create_tanh_sinh_01(n), "the rule over the unit box is another");
            if (iso) same(exact ? *Quad::create_Gauss_01(n[0]) : *Quad::create_tanh_sinh_01(n[0]), "the rule with as many points in all directions is another");
          }
          // what is done to a rule stays in it
          const auto spoil = [&](const auto &make, const char *what) {
            const auto q1 = make();
            q1->scale_weights(3);
            q1->points()[0](0) = 5;
            same(*make(), what);
          };
          spoil([&] { return exact ? Quad::create_Gauss(n, box) : Quad::create_tanh_sinh(n, box); }, "a rule changes with another");
          if (unit) spoil([&] { return exact ? Quad::create_Gauss_01(n) : Quad::create_tanh_sinh_01(n); }, "a rule over the unit box changes with another");
          if (unit && iso) spoil([&] { return exact ? Quad::create_Gauss_01(n[0]) : Quad::create_tanh_sinh_01(n[0]); }, "a rule with as many points in all directions changes with another");
          same(Quad(cq.points(), cq.weights()), "a rule built from points and weights is another");
          // exactness: all the monomials of the nominal degree, moved to the box
          if (exact) {
            std::array<int, d> e;
            e.fill(0);
            while (true) {
              double v = 0;
              ld want = vol;
              for (int i = 0; i < d; ++i) want /= e[i] + 1;
              for (std::size_t f = 0; f < tot; ++f) {
                double m = cq.weights()[f];
                for (int i = 0; i < d; ++i) m *= std::pow((cq.points()[f](i) - lo[i]) / (hi[i] - lo[i]), e[i]);
                v += m;
              }
              vf::eq(v, static_cast<double>(want), 1e-12, "integral of a monomial of degree ", e[0]);
              int i = 0;
              while (i < d && ++e[i] == 2 * n[i]) e[i++] = 0;
              if (i == d) break;
            }
          }
          auto q2 = exact ? Quad::create_Gauss(n, box) : Quad::create_tanh_sinh(n, box);
          q2->scale_weights(-2.5);
          for (std::size_t f = 0; f < tot; ++f) {
            vf::eq(q2->weights()[f], -2.5 * cq.weights()[f], 1e-14, "scaled weight ", f);
            for (int i = 0; i < d; ++i) vf::check(q2->points()[f](i) == cq.points()[f](i), "scaling moves the points");
          }
          q2->weights()[0] = 7;
          q2->points()[0](0) = 9;
          const Quad &c2 = *q2;
          vf::check(c2.weights()[0] == 7 && c2.points()[0](0) == 9, "changes are not kept");
        }
      }
      int i = 0;
      while (i < d && ++k[i] == static_cast<int>(I.size())) k[i++] = 0;
      if (i == d) break;
    }
    int i = 0;
    while (i < d && ++n[i] > nmax) n[i++] = 1;
    if (i == d) break;
  }
  for (int big : { 37, 100 }) {
    if (d == 3 || !vf::want("product", vf::str(name, d, "x", big))) continue;
    vf::nontrivial();
    const auto q = exact ? Quad::create_Gauss_01(big) : Quad::create_tanh_sinh_01(big);
    double s = 0;
    for (double w : q->weights()) s += w;
    vf::eq(s, 1, 1e-12, "the weights add up");
  }
}
}// namespace
void run()
{
  table<Gauss>("gauss", true);
  table<TanhSinh>("tanhsinh", false);
  products<1, Gauss>("gauss1", true);
  products<2, Gauss>("gauss2", true);
  products<3, Gauss>("gauss3", true);
  products<1, TanhSinh>("tanhsinh1", false);
  products<2, TanhSinh>("tanhsinh2", false);
  products<3, TanhSinh>("tanhsinh3", false);
}
