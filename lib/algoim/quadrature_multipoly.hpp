// Stand-in for algoim's quadrature_multipoly.hpp (Saye 2022): dimension
// reduction of Bernstein polynomials by faces, discriminants and resultants.
// Differences from algoim: the singular one-dimensional integrals use
// Gauss-Legendre with more points in the variable t with x = (1-cos(pi t))/2
// instead of tanh-sinh quadrature.
#ifndef VERIF_ALGOIM_MULTIPOLY_HPP
#define VERIF_ALGOIM_MULTIPOLY_HPP
#include "bernstein.hpp"
#include "booluarray.hpp"
#include "gaussquad.hpp"
#include "polyset.hpp"
#include "quadrature_general.hpp"
namespace algoim {
enum QuadStrategy { AlwaysGL, AlwaysTS, AutoMixed };

namespace detail {
  template<int N, int E> bool maskEmpty(const booluarray<N, E> &m)
  {
    for (int f = 0; f < m.count(); ++f)
      if (m.get(f)) return false;
    return true;
  }
  template<int N, int E> booluarray<N, E> nonzeroMask(const xarray<real, N> &p, const booluarray<N, E> &m)
  {
    booluarray<N, E> r(false);
    real scale = 0;
    for (int i = 0; i < p.size(); ++i) scale = std::max(scale, std::abs(p[i]));
    for (int f = 0; f < m.count(); ++f) {
      if (!m.get(f)) continue;
      const auto ix = booluarray<N, E>::unfurl(f);
      std::array<real, N> a, b;
      for (int d = 0; d < N; ++d) {
        const real eps = 0.015625 / E;
        a[d] = real(ix(d)) / E - eps;
        b[d] = real(ix(d) + 1) / E + eps;
      }
      std::vector<real> c(p.data(), p.data() + p.size());
      xarray<real, N> q(c.data(), p.ext());
      bernstein::deCasteljau<N>(q, a.data(), b.data());
      real lo = q[0];
      real hi = q[0];
      for (int i = 1; i < q.size(); ++i) {
        lo = std::min(lo, q[i]);
        hi = std::max(hi, q[i]);
      }
      const real tol = 1e-13 * scale;
      r.set(f, !(lo > tol || hi < -tol));
    }
    return r;
  }
  template<int N, int E> bool pointWithinMask(const booluarray<N, E> &m, const uvector<real, N> &x)
  {
    uvector<int, N> i;
    for (int d = 0; d < N; ++d) i(d) = std::clamp(static_cast<int>(std::floor(x(d) * E)), 0, E - 1);
    return m(i);
  }
  template<int N, int E>
  bool lineIntersectsMask(const booluarray<N, E> &m, const uvector<real, N - 1> &x, int axis)
  {
    for (int j = 0; j < E; ++j)
      if (pointWithinMask<N, E>(m, add_component<real, N - 1>(x, axis, (j + 0.5) / E))) return true;
    return false;
  }
  // Determinant of a dense matrix (partial pivoting).
  inline real det(std::vector<long double> a, int n)
  {
    long double d = 1;
    for (int k = 0; k < n; ++k) {
      int p = k;
      for (int i = k + 1; i < n; ++i)
        if (std::abs(a[i * n + k]) > std::abs(a[p * n + k])) p = i;
      if (a[p * n + k] == 0) return 0;
      if (p != k) {
        for (int j = 0; j < n; ++j) std::swap(a[k * n + j], a[p * n + j]);
        d = -d;
      }
      d *= a[k * n + k];
      for (int i = k + 1; i < n; ++i) {
        const long double f = a[i * n + k] / a[k * n + k];
        for (int j = k; j < n; ++j) a[i * n + j] -= f * a[k * n + j];
      }
    }
    return static_cast<real>(d);
  }
  // Resultant of two univariate Bernstein polynomials (as homogeneous forms).
  inline real resultant(const std::vector<real> &p, const std::vector<real> &q)
  {
    const int m = static_cast<int>(p.size()) - 1;
    const int n = static_cast<int>(q.size()) - 1;
    const int s = m + n;
    if (s == 0) return 1;
    std::vector<long double> a(static_cast<std::size_t>(s) * s, 0.0L);
    for (int i = 0; i < n; ++i)
      for (int j = 0; j <= m; ++j) a[i * s + i + j] = p[j] * Binomial::c(m, j);
    for (int i = 0; i < m; ++i)
      for (int j = 0; j <= n; ++j) a[(n + i) * s + i + j] = q[j] * Binomial::c(n, j);
    return det(a, s);
  }
  inline real discriminant(const std::vector<real> &c)
  {
    const std::size_t P = c.size();
    std::vector<real> u(c.begin(), c.end() - 1);
    std::vector<real> v(c.begin() + 1, c.end());
    static_cast<void>(P);
    return resultant(u, v);
  }
  // Interpolate fn on [0,1]^N by a Bernstein polynomial with the given extents.
  template<int N> std::vector<real> interpolate(const std::function<real(const uvector<real, N> &)> &fn, const uvector<int, N> &ext)
  {
    std::vector<real> c(static_cast<std::size_t>(prod(ext)));
    auto node = [](int i, int P) { return P == 1 ? 0.5 : 0.5 - 0.5 * std::cos(3.14159265358979323846 * (i + 0.5) / P); };
    for (int f = 0; f < static_cast<int>(c.size()); ++f) {
      int r = f;
      uvector<real, N> x;
      for (int d = N - 1; d >= 0; --d) {
        x(d) = node(r % ext(d), ext(d));
        r /= ext(d);
      }
      c[f] = fn(x);
    }
    int stride = 1;
    for (int d = N - 1; d >= 0; --d) {
      const int P = ext(d);
      std::vector<std::vector<real>> V(P);
      for (int i = 0; i < P; ++i) bernstein::evalBernstein(P, node(i, P), V[i]);
      const int n = static_cast<int>(c.size());
      for (int f = 0; f < n; ++f) {
        if ((f / stride) % P != 0) continue;
        // Solve V y = b with Gaussian elimination in long double.
        std::vector<std::vector<long double>> A(P, std::vector<long double>(P + 1));
        for (int i = 0; i < P; ++i) {
          for (int j = 0; j < P; ++j) A[i][j] = V[i][j];
          A[i][P] = c[f + i * stride];
        }
        for (int k = 0; k < P; ++k) {
          int p = k;
          for (int i = k + 1; i < P; ++i)
            if (std::abs(A[i][k]) > std::abs(A[p][k])) p = i;
          std::swap(A[k], A[p]);
          for (int i = 0; i < P; ++i) {
            if (i == k) continue;
            const long double g = A[i][k] / A[k][k];
            for (int j = k; j <= P; ++j) A[i][j] -= g * A[k][j];
          }
        }
        for (int i = 0; i < P; ++i) c[f + i * stride] = static_cast<real>(A[i][P] / A[i][i]);
      }
      stride *= P;
    }
    return c;
  }
  // Lowers the degrees of a polynomial that are higher than needed.
  template<int N> void reduce(std::vector<real> &c, uvector<int, N> &ext)
  {
    for (int k = 0; k < N; ++k) {
      while (ext(k) > 1) {
        xarray<real, N> p(c.data(), ext);
        real scale = 0;
        for (const real v : c) scale = std::max(scale, std::abs(v));
        auto e = ext;
        e(k) = 1;
        real top = 0;
        for (int f = 0; f < prod(e); ++f) {
          int r = f;
          uvector<int, N> j;
          for (int d = N - 1; d >= 0; --d) {
            j(d) = r % e(d);
            r /= e(d);
          }
          real s = 0;
          for (int i = 0; i < ext(k); ++i) {
            j(k) = i;
            s += ((ext(k) - 1 - i) % 2 ? -1 : 1) * Binomial::c(ext(k) - 1, i) * p.m(j);
          }
          top = std::max(top, std::abs(s));
        }
        if (top > 1e-13 * scale) break;
        e = ext;
        e(k) -= 1;
        auto n = interpolate<N>([&p](const uvector<real, N> &x) { return bernstein::evalBernsteinPoly<N>(p, x); }, e);
        c = std::move(n);
        ext = e;
      }
    }
  }
  // Averaged |grad| score per axis and whether eliminating it needs discriminants.
  template<int N, int E> uvector<real, N> score_estimate(const PolySet<N, E> &phi, uvector<bool, N> &has_disc)
  {
    uvector<real, N> s(real(0));
    has_disc = uvector<bool, N>(false);
    for (std::size_t i = 0; i < phi.count(); ++i) {
      const auto p = phi.poly(i);
      const auto &m = phi.mask(i);
      for (int f = 0; f < m.count(); ++f) {
        if (!m.get(f)) continue;
        const auto ix = booluarray<N, E>::unfurl(f);
        uvector<real, N> x;
        for (int d = 0; d < N; ++d) x(d) = (ix(d) + 0.5) / E;
        auto g = bernstein::evalBernsteinPolyGradient<N>(p, x);
        const real sum1 = sum(abs(g));
        if (sum1 > 0) s += abs(g) / sum1;
      }
      real scale = 0;
      for (int f = 0; f < p.size(); ++f) scale = std::max(scale, std::abs(p[f]));
      for (int k = 0; k < N; ++k) {
        real change = 0;// along k, up to round-off errors
        for (int f = 0; f < p.size(); ++f) {
          int r = f;
          uvector<int, N> j;
          for (int d = N - 1; d >= 0; --d) {
            j(d) = r % p.ext(d);
            r /= p.ext(d);
          }
          if (j(k) == 0) continue;
          auto j0 = j;
          --j0(k);
          change = std::max(change, std::abs(p.m(j) - p.m(j0)));
        }
        if (change <= 1e-13 * scale) {
          has_disc(k) = true;
          continue;
        }
        if (p.ext(k) <= 2) {
          // Degree one (or zero) along k: no discriminant, but the leading
          // coefficient may vanish, which the faces already account for.
          continue;
        }
        // Monotone along k inside the mask?
        bool mono = true;
        uvector<int, N> e = p.ext();
        e(k) -= 1;
        std::vector<real> dc(static_cast<std::size_t>(prod(e)));
        xarray<real, N> dq(dc.data(), e);
        for (int f = 0; f < dq.size(); ++f) {
          int r = f;
          uvector<int, N> j;
          for (int d = N - 1; d >= 0; --d) {
            j(d) = r % e(d);
            r /= e(d);
          }
          auto j1 = j;
          ++j1(k);
          dc[f] = p.m(j1) - p.m(j);
        }
        mono = maskEmpty(nonzeroMask<N, E>(dq, m));
        if (!mono) has_disc(k) = true;
      }
    }
    return s;
  }
  template<int N, int E> booluarray<N - 1, E> collapseMask(const booluarray<N, E> &m, int k)
  {
    booluarray<N - 1, E> r(false);
    for (int f = 0; f < m.count(); ++f)
      if (m.get(f)) r.set(booluarray<N - 1, E>::furl(remove_component<int, N>(booluarray<N, E>::unfurl(f), k)), true);
    return r;
  }
  template<int N> std::vector<real> line(const xarray<real, N> &p, const uvector<real, N - 1> &x, int k)
  {
    std::vector<real> c(static_cast<std::size_t>(p.ext(k)));
    bernstein::collapseAlongAxis<N>(p, x, k, c.data());
    return c;
  }
  inline bool normalise(std::vector<real> &c)
  {
    real s = 0;
    for (const real v : c) s = std::max(s, std::abs(v));
    if (s < 1e-300) return false;
    for (real &v : c) v /= s;
    return true;
  }
  template<int N, int E> void eliminate_axis(const PolySet<N, E> &phi, int k, PolySet<N - 1, E> &out)
  {
    auto add = [&out](std::vector<real> c, uvector<int, N - 1> ext, const booluarray<N - 1, E> &mask) {
      if (!normalise(c)) return;
      reduce<N - 1>(c, ext);
      xarray<real, N - 1> p(c.data(), ext);
      const auto m = nonzeroMask<N - 1, E>(p, mask);
      if (!maskEmpty(m)) out.push_back(p, m);
    };
    for (std::size_t i = 0; i < phi.count(); ++i) {
      const auto p = phi.poly(i);
      const auto ext = remove_component<int, N>(p.ext(), k);
      const auto cm = collapseMask<N, E>(phi.mask(i), k);
      for (int side = 0; side < 2; ++side) {
        booluarray<N - 1, E> fm(false);
        for (int f = 0; f < phi.mask(i).count(); ++f) {
          const auto ix = booluarray<N, E>::unfurl(f);
          if (phi.mask(i).get(f) && ix(k) == (side ? E - 1 : 0))
            fm.set(booluarray<N - 1, E>::furl(remove_component<int, N>(ix, k)), true);
        }
        std::vector<real> c;
        for (int f = 0; f < prod(ext); ++f) {
          int r = f;
          uvector<int, N - 1> j;
          for (int d = N - 2; d >= 0; --d) {
            j(d) = r % ext(d);
            r /= ext(d);
          }
          c.push_back(p.m(add_component<int, N - 1>(j, k, side ? p.ext(k) - 1 : 0)));
        }
        add(c, ext, fm);
      }
      if (p.ext(k) > 2) {
        bool mono = true;
        {
          uvector<int, N> e = p.ext();
          e(k) -= 1;
          std::vector<real> dc(static_cast<std::size_t>(prod(e)));
          xarray<real, N> dq(dc.data(), e);
          for (int f = 0; f < dq.size(); ++f) {
            int r = f;
            uvector<int, N> j;
            for (int d = N - 1; d >= 0; --d) {
              j(d) = r % e(d);
              r /= e(d);
            }
            auto j1 = j;
            ++j1(k);
            dc[f] = p.m(j1) - p.m(j);
          }
          mono = maskEmpty(nonzeroMask<N, E>(dq, phi.mask(i)));
        }
        if (!mono) {
          uvector<int, N - 1> de;
          for (int d = 0; d < N - 1; ++d) de(d) = (ext(d) - 1) * 2 * (p.ext(k) - 2) + 1;
          add(interpolate<N - 1>(
                [&p, k](const uvector<real, N - 1> &x) { return discriminant(line<N>(p, x, k)); }, de),
            de,
            cm);
        }
      }
      for (std::size_t j = i + 1; j < phi.count(); ++j) {
        const auto q = phi.poly(j);
        const auto cj = collapseMask<N, E>(phi.mask(j), k);
        booluarray<N - 1, E> m(false);
        for (int f = 0; f < m.count(); ++f) m.set(f, cm.get(f) && cj.get(f));
        uvector<int, N - 1> re;
        for (int d = 0; d < N - 1; ++d) {
          const int dp = d < k ? p.ext(d) : p.ext(d + 1);
          const int dq = d < k ? q.ext(d) : q.ext(d + 1);
          re(d) = (dp - 1) * (q.ext(k) - 1) + (dq - 1) * (p.ext(k) - 1) + 1;
        }
        add(interpolate<N - 1>([&p, &q, k](const uvector<real, N - 1> &x) {
          return resultant(line<N>(p, x, k), line<N>(q, x, k));
        },
              re),
          re,
          m);
      }
    }
  }
}// namespace detail

template<int N> class ImplicitPolyQuadrature
{
  template<int> friend class ImplicitPolyQuadrature;
  PolySet<N, ALGOIM_M> phi_;
  int k_{ -1 };
  bool ts_{ false };
  bool aggregate_{ false };
  ImplicitPolyQuadrature<N - 1> base_;
  std::array<ImplicitPolyQuadrature<N - 1>, N> other_;

  void build(bool outer, bool ts)
  {
    ts_ = ts;
    if (phi_.count() == 0) {
      k_ = N;
      ts_ = false;
      return;
    }
    if constexpr (N == 1) {
      k_ = 0;
    } else {
      uvector<bool, N> disc;
      auto score = detail::score_estimate(phi_, disc);
      const real mx = max(abs(score));
      if (mx > 0) score /= 2 * mx;
      for (int i = 0; i < N; ++i)
        if (!disc(i)) score(i) += 1.0;
      for (int i = 0; i < N; ++i) {
        bool constant = true;
        for (std::size_t j = 0; j < phi_.count(); ++j) constant &= phi_.poly(j).ext(i) == 1;
        if (constant) score(i) = -1.0;
      }
      k_ = argmax(score);
      detail::eliminate_axis(phi_, k_, base_.phi_);
      base_.build(false, ts_ || disc(k_));
      if (outer && disc(k_)) {
        aggregate_ = true;
        for (int i = 0; i < N; ++i)
          if (i != k_) {
            detail::eliminate_axis(phi_, i, other_[i].phi_);
            other_[i].build(false, true);
          }
      }
    }
  }
  std::vector<std::pair<real, int>> roots(const uvector<real, N - 1> &xb, int k) const
  {
    std::vector<std::pair<real, int>> r;
    for (std::size_t i = 0; i < phi_.count(); ++i) {
      const auto p = phi_.poly(i);
      std::vector<real> c(static_cast<std::size_t>(p.ext(k)));
      if constexpr (N == 1)
        c.assign(p.data(), p.data() + p.size());
      else {
        if (!detail::lineIntersectsMask<N, ALGOIM_M>(phi_.mask(i), xb, k)) continue;
        bernstein::collapseAlongAxis<N>(p, xb, k, c.data());
      }
      std::vector<real> out(c.size());
      const int n = bernstein::bernsteinUnitIntervalRealRoots(c.data(), static_cast<int>(c.size()), out.data());
      for (int j = 0; j < n; ++j) {
        const auto x = add_component<real, N - 1>(xb, k, out[j]);
        if (detail::pointWithinMask<N, ALGOIM_M>(phi_.mask(i), x)) r.emplace_back(out[j], static_cast<int>(i));
      }
    }
    return r;
  }
  template<typename F> static void interval(int q, bool ts, real a, real b, const F &f)
  {
    if (ts) q = 2 * q + 6;
    for (int i = 0; i < q; ++i) {
      const real t = GaussQuad::x(q, i);
      const real w = GaussQuad::w(q, i);
      if (ts) {
        const real pi = 3.14159265358979323846;
        f(a + (b - a) * 0.5 * (1 - std::cos(pi * t)), (b - a) * w * 0.5 * pi * std::sin(pi * t));
      } else
        f(a + (b - a) * t, (b - a) * w);
    }
  }
  // Integrate over the whole [0,1]^N, splitting at the polynomials' zero sets.
  template<typename F> void integrate_rec(QuadStrategy st, int q, const F &f) const
  {
    if (k_ == N) {
      if constexpr (N >= 1) {
        int n = 1;
        for (int i = 0; i < N; ++i) n *= q;
        for (int t = 0; t < n; ++t) {
          int r = t;
          uvector<real, N> x;
          real w = 1;
          for (int d = 0; d < N; ++d) {
            x(d) = GaussQuad::x(q, r % q);
            w *= GaussQuad::w(q, r % q);
            r /= q;
          }
          f(x, w);
        }
      }
      return;
    }
    auto line = [&](const uvector<real, N - 1> &xb, real wb) {
      std::vector<real> r{ 0.0, 1.0 };
      for (const auto &[v, i] : roots(xb, k_)) r.push_back(v);
      std::sort(r.begin(), r.end());
      const bool ts = st == AlwaysTS || (st == AutoMixed && ts_);
      for (std::size_t j = 0; j + 1 < r.size(); ++j) {
        if (r[j + 1] - r[j] < 10 * 2.220446049250313e-16) continue;
        interval(q, ts, r[j], r[j + 1], [&](real x, real w) { f(add_component<real, N - 1>(xb, k_, x), wb * w); });
      }
    };
    if constexpr (N == 1)
      line(uvector<real, 0>(), 1.0);
    else
      base_.integrate_rec(st, q, line);
  }
  template<typename F>
  void surf(QuadStrategy st, int q, const F &f, const ImplicitPolyQuadrature<N - 1> &base, int k, bool agg) const
  {
    auto line = [&](const uvector<real, N - 1> &xb, real wb) {
      for (const auto &[v, i] : roots(xb, k)) {
        const auto x = add_component<real, N - 1>(xb, k, v);
        const auto g = bernstein::evalBernsteinPolyGradient<N>(phi_.poly(static_cast<std::size_t>(i)), x);
        const real ng = norm(g);
        if (ng == 0) continue;
        if (agg) {
          const real n = std::abs(g(k)) / ng;
          uvector<real, N> wn(real(0));
          wn(k) = wb * (g(k) > 0 ? 1 : -1);
          f(x, wb * n, wn);
        } else {
          const real alpha = std::abs(g(k)) > 0 ? ng / std::abs(g(k)) : 0;
          f(x, wb * alpha, g * (wb * alpha / ng));
        }
      }
    };
    if constexpr (N == 1)
      line(uvector<real, 0>(), 1.0);
    else
      base.integrate_rec(st, q, line);
  }

public:
  ImplicitPolyQuadrature() = default;
  explicit ImplicitPolyQuadrature(const xarray<real, N> &p)
  {
    std::vector<real> c(p.data(), p.data() + p.size());
    auto ext = p.ext();
    detail::reduce<N>(c, ext);
    const xarray<real, N> r(c.data(), ext);
    const auto m = detail::nonzeroMask<N, ALGOIM_M>(r, booluarray<N, ALGOIM_M>(true));
    if (!detail::maskEmpty(m)) phi_.push_back(r, m);
    build(true, false);
  }
  template<typename F> void integrate(QuadStrategy st, int q, const F &f) const { integrate_rec(st, q, f); }
  template<typename F> void integrate_surf(QuadStrategy st, int q, const F &f) const
  {
    if (k_ == N) return;
    surf(st, q, f, base_, k_, aggregate_);
    if constexpr (N > 1)
      if (aggregate_)
        for (int i = 0; i < N; ++i)
          if (i != k_) surf(st, q, f, other_[i], i, true);
  }
};
template<> class ImplicitPolyQuadrature<0>
{
  template<int> friend class ImplicitPolyQuadrature;
};
}// namespace algoim
#endif
