// Stand-in for algoim's interval.hpp: first-order Taylor arithmetic
// f(c+y) = alpha + beta.y + r, |r| <= eps, for |y_i| <= delta_i.
#ifndef VERIF_ALGOIM_INTERVAL_HPP
#define VERIF_ALGOIM_INTERVAL_HPP
#include "uvector.hpp"
namespace algoim {
template<int N> struct Interval
{
  real alpha;
  uvector<real, N> beta;
  real eps;
  Interval() : alpha(0), beta(real(0)), eps(0) {}
  Interval(real a) : alpha(a), beta(real(0)), eps(0) {}// NOLINT
  Interval(real a, const uvector<real, N> &b, real e = 0) : alpha(a), beta(b), eps(e) {}

  static uvector<real, N> &delta()
  {
    static thread_local uvector<real, N> d;
    return d;
  }
  static real &delta(int i) { return delta()(i); }

  [[nodiscard]] real dev() const
  {
    real b = 0;
    for (int i = 0; i < N; ++i) b += std::abs(beta(i)) * delta()(i);
    return b;
  }
  [[nodiscard]] real maxDeviation() const { return dev() + eps; }
  [[nodiscard]] bool uniformSign() const { return std::abs(alpha) > maxDeviation(); }
  [[nodiscard]] int sign() const { return uniformSign() ? (alpha >= 0 ? 1 : -1) : 0; }

  Interval &operator+=(const Interval &o)
  {
    alpha += o.alpha;
    beta += o.beta;
    eps += o.eps;
    return *this;
  }
  Interval &operator-=(const Interval &o)
  {
    alpha -= o.alpha;
    beta -= o.beta;
    eps += o.eps;
    return *this;
  }
  Interval &operator*=(const Interval &o)
  {
    *this = mul(*this, o);
    return *this;
  }
  Interval &operator/=(const Interval &o)
  {
    *this = mul(*this, inv(o));
    return *this;
  }
  static Interval mul(const Interval &x, const Interval &y)
  {
    const real bx = x.dev();
    const real by = y.dev();
    Interval r;
    r.alpha = x.alpha * y.alpha;
    r.beta = x.alpha * y.beta + y.alpha * x.beta;
    r.eps = bx * by + x.eps * (std::abs(y.alpha) + by) + y.eps * (std::abs(x.alpha) + bx) + x.eps * y.eps;
    return r;
  }
  // g(x): gx = g(alpha), dg = g'(alpha), C >= max |g''| / 2 over the range.
  static Interval chain(const Interval &x, real gx, real dg, real C)
  {
    Interval r;
    r.alpha = gx;
    r.beta = dg * x.beta;
    const real d = x.maxDeviation();
    r.eps = std::abs(dg) * x.eps + C * d * d;
    return r;
  }
  static Interval inv(const Interval &x)
  {
    const real d = x.maxDeviation();
    const real m = std::abs(x.alpha) - d;
    if (m <= 0) return Interval(0, uvector<real, N>(real(0)), 1e300);
    return chain(x, 1 / x.alpha, -1 / (x.alpha * x.alpha), 1 / (m * m * m));
  }
};
template<int N> Interval<N> operator+(Interval<N> a, const Interval<N> &b) { return a += b; }
template<int N> Interval<N> operator-(Interval<N> a, const Interval<N> &b) { return a -= b; }
template<int N> Interval<N> operator*(const Interval<N> &a, const Interval<N> &b) { return Interval<N>::mul(a, b); }
template<int N> Interval<N> operator/(Interval<N> a, const Interval<N> &b) { return a /= b; }
template<int N> Interval<N> operator-(const Interval<N> &a)
{
  return Interval<N>(-a.alpha, -a.beta, a.eps);
}
template<int N> Interval<N> operator+(Interval<N> a, real c)
{
  a.alpha += c;
  return a;
}
template<int N> Interval<N> operator+(real c, Interval<N> a)
{
  a.alpha += c;
  return a;
}
template<int N> Interval<N> operator-(Interval<N> a, real c)
{
  a.alpha -= c;
  return a;
}
template<int N> Interval<N> operator-(real c, const Interval<N> &a) { return -a + c; }
template<int N> Interval<N> operator*(const Interval<N> &a, real c)
{
  return Interval<N>(a.alpha * c, a.beta * c, a.eps * std::abs(c));
}
template<int N> Interval<N> operator*(real c, const Interval<N> &a) { return a * c; }
template<int N> Interval<N> operator/(const Interval<N> &a, real c) { return a * (1 / c); }
template<int N> Interval<N> operator/(real c, const Interval<N> &a) { return Interval<N>::inv(a) * c; }
template<int N> Interval<N> sin(const Interval<N> &x)
{
  return Interval<N>::chain(x, std::sin(x.alpha), std::cos(x.alpha), 0.5);
}
template<int N> Interval<N> cos(const Interval<N> &x)
{
  return Interval<N>::chain(x, std::cos(x.alpha), -std::sin(x.alpha), 0.5);
}
template<int N> Interval<N> exp(const Interval<N> &x)
{
  const real e = std::exp(x.alpha);
  return Interval<N>::chain(x, e, e, 0.5 * std::exp(x.alpha + x.maxDeviation()));
}
template<int N> Interval<N> sqrt(const Interval<N> &x)
{
  const real m = x.alpha - x.maxDeviation();
  if (m <= 0) {
    // sqrt is not smooth at 0: enclose by magnitude only.
    const real hi = std::sqrt(std::max(real(0), x.alpha + x.maxDeviation()));
    return Interval<N>(hi / 2, uvector<real, N>(real(0)), hi / 2);
  }
  const real s = std::sqrt(x.alpha);
  return Interval<N>::chain(x, s, 0.5 / s, 0.125 / (m * std::sqrt(m)));
}
template<int N> Interval<N> abs(const Interval<N> &x)
{
  if (x.uniformSign()) return x.alpha >= 0 ? x : -x;
  const real hi = std::abs(x.alpha) + x.maxDeviation();
  return Interval<N>(hi / 2, uvector<real, N>(real(0)), hi / 2);
}
template<int N> std::ostream &operator<<(std::ostream &o, const Interval<N> &a)
{
  return o << "[" << a.alpha << " +- " << a.maxDeviation() << "]";
}
}// namespace algoim
#endif
