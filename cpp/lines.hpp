// Measures of domains inside of boxes and facets, by lines; calibration of tolerances.
#ifndef VERIF_LINES_HPP
#define VERIF_LINES_HPP
#include "doms.hpp"
namespace doms {
inline const bool calibrate = std::getenv("VERIF_CALIBRATE") != nullptr;
inline std::map<std::string, std::pair<double, std::string>> worst;
inline bool within(double e, double tol, const std::string &what, const std::string &msg)
{
  if (calibrate) {
    auto &w = worst[what];
    if (!(e <= w.first)) w = { e, vf::cur + " " + msg };
    return true;
  }
  return vf::check(e <= tol, msg, ": off by ", e, " (", what, ")");
}
// ---- what is expected, by lines that cross a box along each direction
template<int d> struct Ref
{
  double vol = 0, area = 0;
  A<d> first{}, flux{};// first moments, integral of the normal
};
template<int d> A<d> slope(const Dom<d> &D, A<d> p)
{
  A<d> g;
  for (int i = 0; i < d; ++i) {
    const double h = 1e-5;
    auto a = p, b = p;
    a[i] -= h;
    b[i] += h;
    g[i] = static_cast<double>((D.val(b) - D.val(a)) / (2 * h));
  }
  return g;
}
template<int d> double norm_of(const A<d> &a)
{
  double s = 0;
  for (const auto v : a) s += v * v;
  return std::sqrt(s);
}
// Roots of the level set along a line: calls f(lo, hi, inside) for its pieces
template<int d, typename F> void pieces(const Dom<d> &D, A<d> p, int dir, double lo, double hi, F f)
{
  constexpr int n = 24;
  const auto at_ = [&](double t) {
    p[dir] = t;
    return D.val(p) < 0;
  };
  const double e = 1e-8 * (hi - lo);
  double from = lo, prev = lo + e;
  bool in = at_(prev);
  for (int k = 1; k <= n; ++k) {
    const double t = k == n ? hi - e : lo + (hi - lo) * k / n;
    const bool now = at_(t);
    if (now != in) {
      double a = prev, b = t;
      for (int it = 0; it < 40; ++it) {
        const double m = 0.5 * (a + b);
        (at_(m) == in ? a : b) = m;
      }
      f(from, 0.5 * (a + b), in);
      from = 0.5 * (a + b);
      in = now;
    }
    prev = t;
  }
  f(from, hi, in);
}
template<int d> Ref<d> reference(const Dom<d> &D, const Box<d> &b, const std::vector<int> &dirs, int n)
{
  Ref<d> r;
  const int m = static_cast<int>(dirs.size());
  for (const int dir : dirs) {
    std::array<int, d> t{};
    while (true) {
      A<d> p = b.lo;
      double w = 1;
      for (const int i : dirs)
        if (i != dir) {
          p[i] = b.lo[i] + (b.hi[i] - b.lo[i]) * (t[i] + 0.5) / n;
          w *= (b.hi[i] - b.lo[i]) / n;
        }
      double last = b.hi[dir];
      pieces<d>(D, p, dir, b.lo[dir], b.hi[dir], [&](double lo, double hi, bool in) {
        if (in) {
          r.vol += w * (hi - lo) / m;
          for (const int i : dirs) r.first[i] += w * (i == dir ? (hi * hi - lo * lo) / 2 : (hi - lo) * p[i]) / m;
        }
        if (lo > b.lo[dir] && m == d) {
          auto q = p;
          q[dir] = lo;
          const auto g = slope<d>(D, q);
          const double s = norm_of<d>(g);
          if (s > 0) r.area += w * std::abs(g[dir]) / s;
          r.flux[dir] += in ? -w : w;
        }
        last = hi;
      });
      static_cast<void>(last);
      int i = 0;
      for (; i < m; ++i) {
        const int k = dirs[static_cast<std::size_t>(i)];
        if (k == dir) continue;
        if (++t[k] < n) break;
        t[k] = 0;
      }
      if (i == m) break;
    }
  }
  return r;
}
template<int d> std::vector<int> all_dirs(int but = -1)
{
  std::vector<int> r;
  for (int i = 0; i < d; ++i)
    if (i != but) r.push_back(i);
  return r;
}
template<int d> std::string family(const Dom<d> &D)
{
  std::string s = D.name.substr(0, D.name.find_first_of("0123456789(@ ", 1));
  return s + vf::str(" ", d, "D");
}
inline void calibration()
{
  if (calibrate)
    for (const auto &[k, v] : worst) std::fprintf(stderr, "CAL\t%s\t%.3g\t%s\n", k.c_str(), v.first, v.second.c_str());
}
}// namespace doms
#endif
