// Stand-in for algoim's bernstein.hpp. Coefficient arrays are row-major
// (last index fastest); index d of the array belongs to coordinate d.
#ifndef VERIF_ALGOIM_BERNSTEIN_HPP
#define VERIF_ALGOIM_BERNSTEIN_HPP
#include "binomial.hpp"
#include "uvector.hpp"
#include "xarray.hpp"
namespace algoim::bernstein {
inline real modifiedChebyshevNode(int i, int P)
{
  assert(P > 1 && 0 <= i && i < P);
  const real pi = 3.14159265358979323846;
  return 0.5 - 0.5 * std::cos(pi * (2 * i + 1) / (2.0 * P)) / std::cos(pi / (2.0 * P));
}
inline void evalBernstein(int P, real x, std::vector<real> &b)
{
  b.assign(static_cast<std::size_t>(P), 0.0);
  b[0] = 1;
  for (int k = 1; k < P; ++k) {
    for (int j = k; j > 0; --j) b[j] = b[j] * (1 - x) + b[j - 1] * x;
    b[0] *= (1 - x);
  }
}
template<int N> real evalBernsteinPoly(const xarray<real, N> &p, const uvector<real, N> &x)
{
  std::vector<real> c(p.data(), p.data() + p.size());
  std::size_t n = c.size();
  for (int d = N - 1; d >= 0; --d) {
    std::vector<real> b;
    evalBernstein(p.ext(d), x(d), b);
    const std::size_t m = n / b.size();
    for (std::size_t i = 0; i < m; ++i) {
      real s = 0;
      for (std::size_t j = 0; j < b.size(); ++j) s += c[i * b.size() + j] * b[j];
      c[i] = s;
    }
    n = m;
  }
  return c[0];
}
template<int N> uvector<real, N> evalBernsteinPolyGradient(const xarray<real, N> &p, const uvector<real, N> &x)
{
  uvector<real, N> g;
  for (int k = 0; k < N; ++k) {
    const int P = p.ext(k);
    if (P == 1) {
      g(k) = 0;
      continue;
    }
    uvector<int, N> e = p.ext();
    e(k) = P - 1;
    std::vector<real> c(static_cast<std::size_t>(prod(e)));
    xarray<real, N> q(c.data(), e);
    uvector<int, N> i(0);
    for (int f = 0; f < q.size(); ++f) {
      int r = f;
      for (int d = N - 1; d >= 0; --d) {
        i(d) = r % e(d);
        r /= e(d);
      }
      uvector<int, N> i1 = i;
      ++i1(k);
      c[f] = (P - 1) * (p.m(i1) - p.m(i));
    }
    g(k) = evalBernsteinPoly<N>(q, x);
  }
  return g;
}
template<int N> int uniformSign(const xarray<real, N> &p)
{
  auto sg = [](real v) { return v > 0 ? 1 : (v < 0 ? -1 : 0); };
  const int s = sg(p[0]);
  for (int i = 1; i < p.size(); ++i)
    if (sg(p[i]) != s) return 0;
  return s;
}
namespace vd {
  // de Casteljau on a strided line: restrict to [a,b].
  inline void restrict_line(real *c, int P, int stride, real a, real b)
  {
    // Blossom: new coefficient i = blossom(a^(P-1-i), b^i)
    std::vector<real> src(static_cast<std::size_t>(P)), out(static_cast<std::size_t>(P));
    for (int i = 0; i < P; ++i) src[i] = c[i * stride];
    for (int i = 0; i < P; ++i) {
      std::vector<real> w = src;
      int n = P;
      for (int k = 0; k < P - 1; ++k) {
        const real t = k < P - 1 - i ? a : b;
        for (int j = 0; j < n - 1; ++j) w[j] = w[j] * (1 - t) + w[j + 1] * t;
        --n;
      }
      out[i] = w[0];
    }
    for (int i = 0; i < P; ++i) c[i * stride] = out[i];
  }
}// namespace vd
template<int N> void deCasteljau(xarray<real, N> &p, const real *a, const real *b)
{
  int stride = 1;
  for (int d = N - 1; d >= 0; --d) {
    const int P = p.ext(d);
    const int n = p.size();
    for (int f = 0; f < n; ++f)
      if ((f / stride) % P == 0) vd::restrict_line(p.data() + f, P, stride, a[d], b[d]);
    stride *= P;
  }
}
// Collapse to the univariate polynomial along `axis` through point x.
template<int N> void collapseAlongAxis(const xarray<real, N> &p, const uvector<real, N - 1> &x, int axis, real *out)
{
  const int P = p.ext(axis);
  for (int i = 0; i < P; ++i) out[i] = 0;
  std::array<std::vector<real>, N> b;
  for (int d = 0, k = 0; d < N; ++d)
    if (d != axis) evalBernstein(p.ext(d), x(k++), b[d]);
  for (int f = 0; f < p.size(); ++f) {
    int r = f;
    int ia = 0;
    real w = 1;
    for (int d = N - 1; d >= 0; --d) {
      const int i = r % p.ext(d);
      r /= p.ext(d);
      if (d == axis)
        ia = i;
      else
        w *= b[d][i];
    }
    out[ia] += w * p[f];
  }
}
namespace vd {
  inline real eval1(const std::vector<real> &c, real x)
  {
    std::vector<real> w = c;
    for (std::size_t n = w.size(); n > 1; --n)
      for (std::size_t j = 0; j + 1 < n; ++j) w[j] = w[j] * (1 - x) + w[j + 1] * x;
    return w[0];
  }
  inline void roots_rec(const std::vector<real> &orig, std::vector<real> c, real a, real b, real scale, int depth,
    std::vector<real> &out)
  {
    int var = 0;
    int last = 0;
    for (const real v : c) {
      const int s = v > 0 ? 1 : (v < 0 ? -1 : 0);
      if (s == 0) continue;
      if (last != 0 && s != last) ++var;
      last = s;
    }
    if (last == 0) return;// identically zero piece
    if (var == 0) return;
    if (var == 1 && c.front() != 0 && c.back() != 0) {
      real lo = a;
      real hi = b;
      real flo = c.front();
      for (int it = 0; it < 200 && hi - lo > 1e-16; ++it) {
        const real m = 0.5 * (lo + hi);
        if (m == lo || m == hi) break;
        const real fm = eval1(orig, m);
        if (fm == 0) {
          lo = hi = m;
          break;
        }
        if ((fm > 0) == (flo > 0)) {
          lo = m;
          flo = fm;
        } else
          hi = m;
      }
      out.push_back(0.5 * (lo + hi));
      return;
    }
    if (depth > 46) {
      out.push_back(0.5 * (a + b));
      return;
    }
    const std::size_t P = c.size();
    std::vector<real> left(P), right(P), w = c;
    for (std::size_t k = 0; k < P; ++k) {
      left[k] = w[0];
      right[P - 1 - k] = w[P - 1 - k];
      for (std::size_t j = 0; j + 1 < P - k; ++j) w[j] = 0.5 * (w[j] + w[j + 1]);
    }
    const real m = 0.5 * (a + b);
    if (std::abs(left.back()) == 0) out.push_back(m);
    roots_rec(orig, left, a, m, scale, depth + 1, out);
    roots_rec(orig, right, m, b, scale, depth + 1, out);
  }
}// namespace vd
// Real roots in [0,1]; returns their number (at most P-1).
inline int bernsteinUnitIntervalRealRoots(const real *alpha, int P, real *out)
{
  std::vector<real> c(alpha, alpha + P);
  real scale = 0;
  for (const real v : c) scale = std::max(scale, std::abs(v));
  if (scale == 0 || P < 2) return 0;
  for (real &v : c)
    if (std::abs(v) < 1e-15 * scale) v = 0;
  std::vector<real> r;
  if (c.front() == 0) r.push_back(0);
  vd::roots_rec(c, c, 0, 1, scale, 0, r);
  if (c.back() == 0) r.push_back(1);
  if (P > 2) {// double roots that round-off errors may have lifted
    std::vector<real> dc(c.size() - 1);
    for (std::size_t j = 0; j + 1 < c.size(); ++j) dc[j] = c[j + 1] - c[j];
    std::vector<real> e;
    if (*std::max_element(dc.begin(), dc.end()) > 0 && *std::min_element(dc.begin(), dc.end()) < 0) vd::roots_rec(dc, dc, 0, 1, scale, 0, e);
    const auto found = r;
    for (const real x : e)
      if (std::abs(vd::eval1(c, x)) < 1e-14 * scale && std::none_of(found.begin(), found.end(), [x](const real y) { return std::abs(x - y) < 1e-5; })) r.push_back(x);
  }
  std::sort(r.begin(), r.end());
  std::vector<real> u;
  for (const real x : r)
    if (u.empty() || x - u.back() > 1e-11) u.push_back(x);
  int n = 0;
  for (const real x : u)
    if (n < P - 1) out[n++] = x;
  return n;
}
}// namespace algoim::bernstein
#endif
