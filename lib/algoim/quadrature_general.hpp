// Stand-in for algoim's quadrature_general.hpp (Saye 2015, general functions).
#ifndef VERIF_ALGOIM_QUADRATURE_GENERAL_HPP
#define VERIF_ALGOIM_QUADRATURE_GENERAL_HPP
#include "gaussquad.hpp"
#include "hyperrectangle.hpp"
#include "interval.hpp"
#include "uvector.hpp"
namespace algoim {
template<int N> struct PsiCode
{
  uvector<int, N> sides_;
  int sign_{ 0 };
  PsiCode() = default;
  PsiCode(const uvector<int, N> &sides, int sign) : sides_(sides), sign_(sign) {}
  PsiCode(const PsiCode &o, int dim, int side, int sign) : sides_(o.sides_), sign_(sign) { sides_(dim) = side; }
  [[nodiscard]] int side(int dim) const { return sides_(dim); }
  [[nodiscard]] int sign() const { return sign_; }
};

template<int N> struct QuadratureRule
{
  struct Node
  {
    uvector<real, N> x;
    real w;
    Node(const uvector<real, N> &xx, real ww) : x(xx), w(ww) {}
  };
  std::vector<Node> nodes;
  void evalIntegrand(const uvector<real, N> &x, real w) { nodes.push_back(Node(x, w)); }
  template<typename F> real operator()(const F &f) const
  {
    real s = 0;
    for (const auto &n : nodes) s += f(n.x) * n.w;
    return s;
  }
  [[nodiscard]] real sumWeights() const
  {
    real s = 0;
    for (const auto &n : nodes) s += n.w;
    return s;
  }
};

namespace detail {
  // Signs needed on the bottom/top face when phi is monotone in the height direction.
  template<bool S> void determineSigns(bool positiveAbove, int sign, int &bottomSign, int &topSign)
  {
    if constexpr (S) {
      static_cast<void>(sign);
      bottomSign = positiveAbove ? -1 : 1;
      topSign = positiveAbove ? 1 : -1;
    } else {
      if (sign == 1) {
        bottomSign = positiveAbove ? 0 : 1;
        topSign = positiveAbove ? 1 : 0;
      } else if (sign == -1) {
        bottomSign = positiveAbove ? -1 : 0;
        topSign = positiveAbove ? 0 : -1;
      } else {
        bottomSign = topSign = 0;
      }
    }
  }

  template<typename Phi, int N>
  void bisect(const Phi &phi, uvector<real, N> x, int dim, real a, real b, std::vector<real> &roots)
  {
    x(dim) = a;
    const real fa = phi(x);
    x(dim) = b;
    const real fb = phi(x);
    if (fa == 0 || fb == 0) {
      if (fa == 0) roots.push_back(a);
      if (fb == 0) roots.push_back(b);
      return;
    }
    if ((fa > 0) == (fb > 0)) return;
    real lo = a;
    real hi = b;
    for (int it = 0; it < 120; ++it) {
      const real m = 0.5 * (lo + hi);
      if (m == lo || m == hi) break;
      x(dim) = m;
      const real fm = phi(x);
      if (fm == 0) {
        lo = hi = m;
        break;
      }
      if ((fm > 0) == (fa > 0))
        lo = m;
      else
        hi = m;
    }
    roots.push_back(0.5 * (lo + hi));
  }
  template<typename Phi, int N>
  void rootFindRec(const Phi &phi, const uvector<real, N> &x, int dim, real a, real b, std::vector<real> &roots, int level)
  {
    const auto saved = Interval<N>::delta();
    uvector<Interval<N>, N> xi;
    for (int d = 0; d < N; ++d) {
      xi(d) = Interval<N>(x(d));
      Interval<N>::delta(d) = 0;
    }
    xi(dim) = Interval<N>(0.5 * (a + b), set_component<real, N>(uvector<real, N>(real(0)), dim, real(1)));
    Interval<N>::delta(dim) = 0.5 * (b - a);
    const auto range = phi(xi);
    const bool nonzero = std::abs(range.alpha) > (1 + 1e-10) * range.maxDeviation();// a root at the end is not lost by round-off
    bool monotone = false;
    if (!nonzero) {
      const auto g = phi.grad(xi);
      monotone = g(dim).uniformSign();
    }
    Interval<N>::delta() = saved;
    if (nonzero) return;
    if (monotone || level >= 8) {
      bisect<Phi, N>(phi, x, dim, a, b, roots);
      return;
    }
    const real m = 0.5 * (a + b);
    rootFindRec<Phi, N>(phi, x, dim, a, m, roots, level + 1);
    rootFindRec<Phi, N>(phi, x, dim, m, b, roots, level + 1);
  }
  // Roots of phi along `dim` in [xmin,xmax]; `monotone` if at most one is expected.
  template<typename Phi, int N>
  void rootFind(const Phi &phi, const uvector<real, N> &x, int dim, real xmin, real xmax, std::vector<real> &roots,
    bool monotone)
  {
    if (monotone)
      bisect<Phi, N>(phi, x, dim, xmin, xmax, roots);
    else
      rootFindRec<Phi, N>(phi, x, dim, xmin, xmax, roots, 0);
  }
}// namespace detail

template<int M, int N, typename Phi, typename F, bool S> struct ImplicitIntegral
{
  static constexpr int n_psi = 1 << (N - 1);
  const Phi &phi;
  F &f;
  uvector<bool, N> free;
  std::array<PsiCode<N>, n_psi> psi;
  int psiCount;
  HyperRectangle<real, N> xrange;
  int p;
  int e0{ -1 };
  uvector<Interval<N>, N> xint;

  void setSides(const PsiCode<N> &c, uvector<real, N> &x) const
  {
    for (int d = 0; d < N; ++d)
      if (!free(d)) x(d) = xrange.side(c.side(d))(d);
  }
  bool prune()
  {
    for (int i = 0; i < psiCount;) {
      for (int d = 0; d < N; ++d)
        if (!free(d)) xint(d).alpha = xrange.side(psi[i].side(d))(d);
      const Interval<N> r = phi(xint);
      if (r.uniformSign()) {
        if ((r.alpha >= 0.0 && psi[i].sign() >= 0) || (r.alpha <= 0.0 && psi[i].sign() <= 0)) {
          --psiCount;
          std::swap(psi[i], psi[psiCount]);
        } else
          return false;
      } else
        ++i;
    }
    return true;
  }
  void tensorProduct()
  {
    int n = 1;
    for (int i = 0; i < M; ++i) n *= p;
    for (int t = 0; t < n; ++t) {
      uvector<real, N> x;
      real w = 1;
      int r = t;
      for (int d = 0; d < N; ++d)
        if (free(d)) {
          const int i = r % p;
          r /= p;
          x(d) = xrange.min(d) + xrange.extent(d) * GaussQuad::x(p, i);
          w *= xrange.extent(d) * GaussQuad::w(p, i);
        }
      f.evalIntegrand(x, w);
    }
  }
  // Called by the base integral: x is valid in the base's free coordinates.
  void evalIntegrand(uvector<real, N> x, real w)
  {
    std::vector<real> roots;
    const real a = xrange.min(e0);
    const real b = xrange.max(e0);
    if constexpr (S) {
      for (int i = 0; i < psiCount; ++i) {
        uvector<real, N> xx = x;
        setSides(psi[i], xx);
        detail::rootFind<Phi, N>(phi, xx, e0, a, b, roots, M > 1);
      }
      for (const real r : roots) {
        uvector<real, N> xx = x;
        xx(e0) = r;
        const auto g = phi.grad(xx);
        f.evalIntegrand(xx, w * norm(g) / std::abs(g(e0)));
      }
      return;
    }
    roots = { a, b };
    for (int i = 0; i < psiCount; ++i) {
      uvector<real, N> xx = x;
      setSides(psi[i], xx);
      detail::rootFind<Phi, N>(phi, xx, e0, a, b, roots, M > 1);
    }
    std::sort(roots.begin(), roots.end());
    for (std::size_t k = 0; k + 1 < roots.size(); ++k) {
      const real x0 = roots[k];
      const real x1 = roots[k + 1];
      if (x1 - x0 < 10.0 * 2.220446049250313e-16 * (b - a)) continue;
      bool ok = true;
      for (int i = 0; i < psiCount && ok; ++i) {
        uvector<real, N> xx = x;
        xx(e0) = 0.5 * (x0 + x1);
        setSides(psi[i], xx);
        ok = phi(xx) > 0.0 ? psi[i].sign() >= 0 : psi[i].sign() <= 0;
      }
      if (!ok) continue;
      for (int i = 0; i < p; ++i) {
        x(e0) = x0 + (x1 - x0) * GaussQuad::x(p, i);
        f.evalIntegrand(x, w * (x1 - x0) * GaussQuad::w(p, i));
      }
    }
  }

  ImplicitIntegral(const Phi &phi_, F &f_, const uvector<bool, N> &free_, const std::array<PsiCode<N>, n_psi> &psi_,
    int psiCount_, const HyperRectangle<real, N> &xrange_, int p_, int level = 0)
    : phi(phi_), f(f_), free(free_), psi(psi_), psiCount(psiCount_), xrange(xrange_), p(p_)
  {
    if constexpr (M == 1) {
      for (int d = 0; d < N; ++d)
        if (free(d)) e0 = d;
      evalIntegrand(uvector<real, N>(real(0)), 1.0);
      return;
    } else {
      for (int d = 0; d < N; ++d) {
        if (free(d)) {
          xint(d) = Interval<N>(xrange.midpoint(d), set_component<real, N>(uvector<real, N>(real(0)), d, real(1)));
          Interval<N>::delta(d) = 0.5 * xrange.extent(d);
        } else {
          xint(d) = Interval<N>(real(0));
          Interval<N>::delta(d) = 0;
        }
      }
      if (!prune()) return;
      if (psiCount == 0) {
        if constexpr (!S) tensorProduct();
        return;
      }
      real best = 0;
      for (int d = 0; d < N; ++d)
        if (!free(d)) xint(d).alpha = xrange.side(psi[0].side(d))(d);
      const auto g = phi.grad(xint);
      for (int d = 0; d < N; ++d)
        if (free(d) && std::abs(g(d).alpha) > 1.001 * g(d).maxDeviation()) {
          const real q = std::abs(g(d).alpha) * xrange.extent(d);
          if (q > best) {
            best = q;
            e0 = d;
          }
        }
      std::array<PsiCode<N>, n_psi> npsi;
      int n = 0;
      for (int i = 0; i < psiCount; ++i) {
        for (int d = 0; d < N; ++d)
          if (!free(d)) xint(d).alpha = xrange.side(psi[i].side(d))(d);
        const auto gi = phi.grad(xint);
        if (!(e0 != -1 && gi(e0).uniformSign())) {
          if (level < 16) {
            int dim = -1;
            for (int d = 0; d < N; ++d)
              if (free(d) && (dim == -1 || xrange.extent(d) > xrange.extent(dim))) dim = d;
            const real xm = xrange.midpoint(dim);
            ImplicitIntegral(phi, f, free, psi, psiCount,
              HyperRectangle<real, N>(xrange.min(), set_component<real, N>(xrange.max(), dim, xm)), p, level + 1);
            ImplicitIntegral(phi, f, free, psi, psiCount,
              HyperRectangle<real, N>(set_component<real, N>(xrange.min(), dim, xm), xrange.max()), p, level + 1);
          } else {
            if constexpr (!S) {
              uvector<real, N> x = xrange.midpoint();
              bool ok = true;
              for (int j = 0; j < psiCount && ok; ++j) {
                setSides(psi[j], x);
                ok = phi(x) >= 0.0 ? psi[j].sign() >= 0 : psi[j].sign() <= 0;
              }
              if (ok) {
                real w = 1;
                for (int d = 0; d < N; ++d)
                  if (free(d)) w *= xrange.extent(d);
                f.evalIntegrand(x, w);
              }
            }
          }
          return;
        }
        int bs = 0;
        int ts = 0;
        detail::determineSigns<S>(gi(e0).alpha > 0.0, psi[i].sign(), bs, ts);
        npsi[n++] = PsiCode<N>(psi[i], e0, 0, bs);
        npsi[n++] = PsiCode<N>(psi[i], e0, 1, ts);
      }
      using Self = ImplicitIntegral<M, N, Phi, F, S>;
      ImplicitIntegral<M - 1, N, Phi, Self, false>(
        phi, *this, set_component<bool, N>(free, e0, false), npsi, n, xrange, p);
    }
  }
};

// dim in [0,N): facet `side` normal to dim; dim == N: the surface; otherwise the volume.
template<int N, typename Phi>
QuadratureRule<N> quadGen(const Phi &phi, const HyperRectangle<real, N> &xrange, int dim, int side, int qo)
{
  QuadratureRule<N> q;
  std::array<PsiCode<N>, 1 << (N - 1)> psi;
  uvector<bool, N> free = true;
  if (0 <= dim && dim < N) {
    psi[0] = PsiCode<N>(set_component<int, N>(uvector<int, N>(0), dim, side), -1);
    free(dim) = false;
    ImplicitIntegral<N - 1, N, Phi, QuadratureRule<N>, false>(phi, q, free, psi, 1, xrange, qo);
    for (auto &n : q.nodes) n.x(dim) = xrange.side(side)(dim);
  } else if (dim == N) {
    psi[0] = PsiCode<N>(uvector<int, N>(0), -1);
    ImplicitIntegral<N, N, Phi, QuadratureRule<N>, true>(phi, q, free, psi, 1, xrange, qo);
  } else {
    psi[0] = PsiCode<N>(uvector<int, N>(0), -1);
    ImplicitIntegral<N, N, Phi, QuadratureRule<N>, false>(phi, q, free, psi, 1, xrange, qo);
  }
  return q;
}
}// namespace algoim
#endif
