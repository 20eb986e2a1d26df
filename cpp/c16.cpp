// C16: polynomials. Operations linear in the coefficients are run on every vector of the basis of every order in
// range, products on every pair, on a grid with more points per direction than the degree: there the results
// determine the polynomials. The oracle works in long double on 1D factors.
#include "vf.hpp"
#include <array>
#include <optional>
#include <algoim/bernstein.hpp>
#include <algoim/interval.hpp>
#include <qugar/bbox.hpp>
#include <qugar/bezier_tp.hpp>
#include <qugar/bezier_tp_utils.hpp>
#include <qugar/lagrange_tp_utils.hpp>
#include <qugar/monomials_tp.hpp>
#include <qugar/point.hpp>
#include <qugar/tensor_index_tp.hpp>
using namespace qugar;
using namespace qugar::impl;
namespace {
using ld = long double;
template<int d> using Ord = std::array<int, d>;
template<int d> std::vector<Ord<d>> orders(int lo, int hi)
{
  std::vector<Ord<d>> o;
  Ord<d> k;
  k.fill(lo);
  while (true) {
    o.push_back(k);
    int i = 0;
    while (i < d && ++k[i] > hi) k[i++] = lo;
    if (i == d) return o;
  }
}
template<int d> int size(const Ord<d> &o)
{
  int n = 1;
  for (int i : o) n *= i;
  return n;
}
template<int d> Ord<d> unflat(int f, const Ord<d> &o)
{
  Ord<d> r;
  for (int i = 0; i < d; ++i) {
    r[i] = f % o[i];
    f /= o[i];
  }
  return r;
}
template<int d> TensorSizeTP<d> tsize(const Ord<d> &o)
{
  TensorSizeTP<d> t;
  for (int i = 0; i < d; ++i) t(i) = o[i];
  return t;
}
template<int d> std::string s(const Ord<d> &o)
{
  std::string r;
  for (int i : o) r += (r.empty() ? "" : "x") + std::to_string(i);
  return r;
}
template<int d> std::string s(const Point<d> &p)
{
  std::string r;
  for (int i = 0; i < d; ++i) r += (i ? "," : "(") + vf::str(p(i));
  return r + ")";
}
ld binom(int n, int k)
{
  ld r = 1;
  for (int i = 0; i < k; ++i) r = r * (n - i) / (i + 1);
  return r;
}
// derivatives of a 1D factor: monomial x^i, or Bernstein polynomial i of degree n - 1
ld mono(int i, ld x, int der)
{
  if (der > i) return 0;
  ld r = 1;
  for (int k = 0; k < der; ++k) r *= i - k;
  for (int k = 0; k < i - der; ++k) r *= x;
  return r;
}
ld bern(int i, int n, ld x, int der)
{
  ld r = 0;
  for (int k = i; k < n; ++k) r += binom(n - 1, i) * binom(n - 1 - i, k - i) * ((k - i) % 2 ? -1 : 1) * mono(k, x, der);
  return r;
}
enum Kind { MON, BZR };
ld factor(Kind k, int i, int n, ld x, int der) { return k == MON ? mono(i, x, der) : bern(i, n, x, der); }
// derivative `ders` at p of the polynomial of the given coefficients
template<int d> ld value(Kind kind, const Ord<d> &o, const std::vector<ld> &c, const Point<d> &p, const Ord<d> &ders)
{
  ld r = 0;
  for (int f = 0; f < size<d>(o); ++f) {
    if (c[f] == 0) continue;
    const auto t = unflat<d>(f, o);
    ld v = c[f];
    for (int i = 0; i < d; ++i) v *= factor(kind, t[i], o[i], p(i), ders[i]);
    r += v;
  }
  return r;
}
template<int d> std::vector<Point<d>> grid(const Ord<d> &o, int extra = 1)
{
  static const double xs[] = { 0, 1, 0.3, -0.7, 0.6, 1.4, 0.85, 0.1, 0.45, 1.2, -0.25, 0.72 };
  Ord<d> n;
  for (int i = 0; i < d; ++i) n[i] = o[i] + extra;
  std::vector<Point<d>> r;
  for (int f = 0; f < size<d>(n); ++f) {
    const auto t = unflat<d>(f, n);
    Point<d> p;
    for (int i = 0; i < d; ++i) p(i) = xs[t[i]];
    r.push_back(p);
  }
  return r;
}
template<int range> double comp(const std::conditional_t<range == 1, real, Point<range>> &v, int i)
{
  if constexpr (range == 1) return v;
  else return v(i);
}
template<int range> std::conditional_t<range == 1, real, Point<range>> coef(ld v)
{
  if constexpr (range == 1) return static_cast<real>(v);
  else {
    Point<range> p;
    for (int i = 0; i < range; ++i) p(i) = static_cast<real>(v * (i == 0 ? 1 : i == 1 ? -2 : 0.5L));
    return p;
  }
}
ld cscale(int i) { return i == 0 ? 1 : i == 1 ? -2 : 0.5L; }
template<int d, int range> std::vector<std::conditional_t<range == 1, real, Point<range>>> coefs(const std::vector<ld> &c)
{
  std::vector<std::conditional_t<range == 1, real, Point<range>>> r;
  for (ld v : c) r.push_back(coef<range>(v));
  return r;
}
// every vector of the basis, then one with all the coefficients
template<int d> std::vector<std::vector<ld>> vectors(const Ord<d> &o)
{
  const int n = size<d>(o);
  std::vector<std::vector<ld>> r;
  for (int f = 0; f < n; ++f) {
    r.emplace_back(n, 0.0L);
    r.back()[f] = 1;
  }
  r.emplace_back(n);
  for (int f = 0; f < n; ++f) r.back()[f] = ((f * 7 + 3) % 11 - 5) * 0.25L + (f % 3 == 0);
  return r;
}
template<int range> bool close(const std::conditional_t<range == 1, real, Point<range>> &got, ld want, ld scale, const std::string &what)
{
  for (int i = 0; i < range; ++i) {
    const double g = comp<range>(got, i);
    const ld w = want * cscale(i);
    if (!vf::check(std::isfinite(g) && std::abs(g - w) <= 1e-12L * scale * (1 + std::abs(w)), what, i ? " (component " : "", i ? std::to_string(i) : "", i ? ")" : "", ": ", g, " instead of ", static_cast<double>(w))) return false;
  }
  return true;
}
// f against the polynomial (kind, o, c) in full: value, gradient, Hessian
template<int d, int range> void compare(const DomainFunc<d, range> &f, Kind kind, const Ord<d> &o, const std::vector<ld> &c, const std::string &what, int extra = 1, bool ders = true)
{
  Ord<d> z{};
  for (const auto &p : grid<d>(o, extra)) {
    if (!close<range>(f(p), value<d>(kind, o, c, p, z), 300, what + "value at " + s<d>(p))) return;
    if (!ders) continue;
    const auto g = f.grad(p);
    for (int i = 0; i < d; ++i) {
      auto e = z;
      ++e[i];
      if (!close<range>(g(i), value<d>(kind, o, c, p, e), 2000, vf::str(what, "derivative ", i, " at ", s<d>(p)))) return;
    }
    const auto h = f.hessian(p);
    for (int i = 0, k = 0; i < d; ++i)
      for (int j = i; j < d; ++j, ++k) {
        auto e = z;
        ++e[i];
        ++e[j];
        if (!close<range>(h(k), value<d>(kind, o, c, p, e), 20000, vf::str(what, "derivative ", i, j, " at ", s<d>(p)))) return;
      }
  }
}
template<int d, int range> bool has_order(const PolynomialTP<d, range> &f, const Ord<d> &o, const std::string &what)
{
  bool ok = true;
  for (int i = 0; i < d; ++i) ok &= f.get_order(i) == o[i] && f.get_order()(i) == o[i] && f.get_degree(i) == o[i] - 1;
  return vf::check(ok && static_cast<int>(f.get_num_coefs()) == size<d>(o) && f.get_coefs().size() == f.get_num_coefs(), what, "order");
}
// Taylor intervals enclose the function on their box
template<int d, typename F> void encloses(F f, const std::string &what)
{
  using I = ::algoim::Interval<d>;
  for (const double c0 : { 0.2, 0.5 })
    for (const double w : { 0.01, 0.2, 0.5 }) {
      Point<d> c;
      Point<d, I> x;
      for (int i = 0; i < d; ++i) {
        c(i) = c0 + 0.15 * i;
        ::algoim::uvector<real, d> b(0.0);
        b(i) = 1;
        x(i) = I(c(i), b);
        I::delta(i) = w * (1 - 0.3 * i);
      }
      const I v = f(x);
      Ord<d> n;
      n.fill(5);
      for (int k = 0; k < size<d>(n); ++k) {
        const auto t = unflat<d>(k, n);
        Point<d> p;
        ld lin = v.alpha;
        for (int i = 0; i < d; ++i) {
          const double y = (t[i] - 2) / 2.0 * I::delta(i);
          p(i) = c(i) + y;
          lin += v.beta(i) * y;
        }
        const double g = f(p);
        if (!vf::check(std::abs(g - lin) <= v.eps * (1 + 1e-9) + 1e-9 * (1 + std::abs(g)), what, "interval around ", s<d>(c), " of half width ", w, " does not enclose the value at ", s<d>(p))) return;
      }
    }
}
template<int d, int range> void intervals(const DomainFunc<d, range> &f, const std::string &what)
{
  if constexpr (range == 1) {
    encloses<d>([&](const auto &x) { return f(x); }, what + "value: ");
    for (int i = 0; i < d; ++i) encloses<d>([&](const auto &x) { return f.grad(x)(i); }, vf::str(what, "derivative ", i, ": "));
  } else {
    for (int r = 0; r < range; ++r) {
      encloses<d>([&](const auto &x) { return f(x)(r); }, vf::str(what, "component ", r, ": "));
      for (int i = 0; i < d; ++i) encloses<d>([&](const auto &x) { return f.grad(x)(i)(r); }, vf::str(what, "component ", r, ", derivative ", i, ": "));
    }
  }
}
template<int d> Ord<d - 1> drop(const Ord<d> &o, int dir)
{
  Ord<d - 1> r;
  for (int i = 0, k = 0; i < d; ++i)
    if (i != dir) r[k++] = o[i];
  return r;
}
template<int d, int range, typename T> void facets(const T &f, const Ord<d> &o, const std::string &what)
{
  if constexpr (d > 1) {
    for (int fc = 0; fc < 2 * d; ++fc) {
      const auto g = f.extract_facet(fc);
      const auto so = drop<d>(o, fc / 2);
      has_order<d - 1, range>(*g, so, vf::str(what, "facet ", fc, ": "));
      for (const auto &q : grid<d - 1>(so, 0)) {
        Point<d> p;
        for (int i = 0, k = 0; i < d; ++i) p(i) = i == fc / 2 ? fc % 2 : q(k++);
        const auto a = (*g)(q);
        const auto b = f(p);
        for (int r = 0; r < range; ++r)
          if (!vf::check(vf::near(comp<range>(a, r), comp<range>(b, r), 1e-10), what, "facet ", fc, " is ", comp<range>(a, r), " instead of ", comp<range>(b, r), " at ", s<d>(p))) return;
      }
    }
  }
}
template<int d, int range> void single(const Ord<d> &o, int k, const std::vector<ld> &c)
{
  const auto to = tsize<d>(o);
  const std::string key = vf::str(d, "D->", range, " ", s<d>(o), " #", k);
  if (vf::want("monomials", "monomials " + key)) {
    vf::nontrivial();
    vf::guarded([&] {
      const MonomialsTP<d, range> m(to, coefs<d, range>(c));
      has_order<d, range>(m, o, "");
      compare<d, range>(m, MON, o, c, "");
      const MonomialsTP<d, range> copy(m);
      compare<d, range>(copy, MON, o, c, "copy: ", 0, false);
      for (int dir = 0; dir < d; ++dir) {
        if (o[dir] == 1) continue;
        const auto der = m.create_derivative(dir);
        auto no = o;
        --no[dir];
        std::vector<ld> nc(size<d>(no));
        for (int f = 0; f < size<d>(no); ++f) {
          auto t = unflat<d>(f, no);
          ++t[dir];
          int g = 0;
          for (int i = d - 1; i >= 0; --i) g = g * o[i] + t[i];
          nc[f] = t[dir] * c[g];
        }
        has_order<d, range>(*der, no, vf::str("derivative along ", dir, ": "));
        compare<d, range>(*der, MON, no, nc, vf::str("derivative along ", dir, ": "), 0, false);
      }
      facets<d, range>(m, o, "");
      const BezierTP<d, range> b(m);
      has_order<d, range>(b, o, "Bezier: ");
      compare<d, range>(b, MON, o, c, "Bezier: ");
      // into a vector with something in it
      std::vector<std::conditional_t<range == 1, real, Point<range>>> out(c.size() + 2, coef<range>(7));
      MonomialsTP<d, range>::transform_coefs_to_Bezier(m, out);
      if (vf::check(out.size() == c.size(), "Bezier coefficients: ", out.size(), " instead of ", c.size()))
        compare<d, range>(BezierTP<d, range>(to, out), MON, o, c, "Bezier coefficients: ", 0, false);
      intervals<d, range>(m, "");
    });
  }
  if (vf::want("Bezier", "Bezier " + key)) {
    vf::nontrivial();
    vf::guarded([&] {
      using B = BezierTP<d, range>;
      const B b(to, coefs<d, range>(c));
      has_order<d, range>(b, o, "");
      compare<d, range>(b, BZR, o, c, "");
      const B copy(b);
      compare<d, range>(copy, BZR, o, c, "copy: ", 0, false);
      facets<d, range>(b, o, "");
      auto mc = c;
      for (auto &v : mc) v = -v;
      compare<d, range>(*b.negate(), BZR, o, mc, "negated: ", 0, false);
      for (int r = 0; r < (d == 3 ? 4 : 9); ++r) {// raised by 0..2 per direction
        auto no = o;
        for (int i = 0, q = r; i < d; ++i, q /= 3) no[i] += d == 3 ? (r >> (i % 2)) % 2 + (r == 3 && i == 2) : q % 3;
        const auto up = b.raise_order(tsize<d>(no));
        if (!has_order<d, range>(*up, no, vf::str("raised to ", s<d>(no), ": "))) break;
        if constexpr (range == 1) {
          for (const auto &p : grid<d>(no, 0))
            if (!close<1>((*up)(p), value<d>(BZR, o, c, p, Ord<d>{}), 2000, vf::str("raised to ", s<d>(no), ", at ", s<d>(p)))) break;
        } else
          for (const auto &p : grid<d>(o, 0))
            if (!close<range>((*up)(p), value<d>(BZR, o, c, p, Ord<d>{}), 2000, vf::str("raised to ", s<d>(no), ", at ", s<d>(p)))) break;
      }
      // image
      B t(to, coefs<d, range>(c));
      t.coefs_linear_transform(-1.5, coef<range>(0.25));
      auto tc = c;
      for (auto &v : tc) v = -1.5L * v + 0.25L;
      compare<d, range>(t, BZR, o, tc, "linear transformation: ", 0, false);
      {
        Point<range> m0, m1, n0, n1;
        for (int i = 0; i < range; ++i) {
          m0(i) = -1 + i * 0.5;
          m1(i) = 2 + i;
          n0(i) = 3 - i;
          n1(i) = 3.5 + i;
        }
        B im(to, coefs<d, range>(c));
        im.transform_image(BoundBox<range>(m0, m1), BoundBox<range>(n0, n1));
        for (const auto &p : grid<d>(o, 0)) {
          const auto v = b(p);
          const auto w = im(p);
          bool ok = true;
          for (int i = 0; i < range; ++i) {
            const double e = (comp<range>(v, i) - m0(i)) / (m1(i) - m0(i)) * (n1(i) - n0(i)) + n0(i);
            ok = ok && vf::eq(comp<range>(w, i), e, 1e-9, "image at ", s<d>(p));
          }
          if (!ok) break;
        }
      }
      if constexpr (range == 1) {
        for (int r = 0; r < 4; ++r) {
          Point<d> lo, hi;
          for (int i = 0; i < d; ++i) {
            lo(i) = r == 0 ? 0 : r == 3 ? -0.4 : 0.2 + 0.1 * i;
            hi(i) = r == 0 ? 1 : r == 1 ? 0.55 - 0.05 * i : 1.3;
          }
          B rs(to, coefs<d, range>(c));
          rs.rescale_domain(BoundBox<d>(lo, hi));
          has_order<d, range>(rs, o, "rescaled: ");
          for (const auto &p : grid<d>(o, 0)) {
            Point<d> q;
            for (int i = 0; i < d; ++i) q(i) = lo(i) + p(i) * (hi(i) - lo(i));
            if (!close<1>(rs(p), value<d>(BZR, o, c, q, Ord<d>{}), 2000, vf::str("rescaled to ", s<d>(lo), s<d>(hi), " at ", s<d>(p)))) break;
          }
        }
        // the sign is that of the function all over the unit box, or undetermined
        const auto sg = b.sign();
        bool pos = true, neg = true;
        for (const ld v : c) {
          pos &= v > 0;
          neg &= v < 0;
        }
        vf::check(sg == (pos ? FuncSign::positive : neg ? FuncSign::negative : FuncSign::undetermined), "sign ", int(sg));
        B ones(to, 0.5);
        vf::check(ones.sign() == FuncSign::positive && ones.negate()->sign() == FuncSign::negative, "sign of a constant");
        const auto &xa = b.get_xarray();
        bool ok = true;
        for (int f = 0; f < size<d>(o); ++f) {
          const auto t2 = unflat<d>(f, o);
          ::algoim::uvector<int, d> ix;
          for (int i = 0; i < d; ++i) {
            ix(d - 1 - i) = t2[i];
            ok &= xa.ext(d - 1 - i) == o[i];
          }
          ok = ok && xa.m(ix) == static_cast<double>(c[f]);
        }
        vf::check(ok, "array of the coefficients");
      }
      intervals<d, range>(b, "");
    });
  }
}
template<int d, int range> void singles(int hi)
{
  for (const auto &o : orders<d>(1, hi)) {
    const auto vs = vectors<d>(o);
    for (std::size_t k = 0; k < vs.size(); ++k) single<d, range>(o, static_cast<int>(k), vs[k]);
  }
}
template<int d, int range> std::vector<double> numbers_of(const DomainFunc<d, range> &f, const Point<d> &p, int what)
{
  std::vector<double> r;
  const auto add = [&r](const auto &v) {
    for (int i = 0; i < range; ++i) r.push_back(comp<range>(v, i));
  };
  if (what == 0) add(f(p));
  if (what == 1) {
    const auto g = f.grad(p);
    for (int i = 0; i < d; ++i) add(g(i));
  }
  if (what == 2) {
    const auto h = f.hessian(p);
    for (int i = 0; i < d * (d + 1) / 2; ++i) add(h(i));
  }
  return r;
}
// every polynomial evaluated right after every other one, at the same point; then one that lives where another one
// did, and one whose coefficients change
template<int d, int range> void successions(int hi)
{
  std::vector<std::shared_ptr<const DomainFunc<d, range>>> fs;
  std::vector<std::string> names;
  const auto os = orders<d>(1, hi);
  for (const auto &o : os)
    for (const bool bzr : { true, false }) {
      const auto c = coefs<d, range>(vectors<d>(o).back());
      if (bzr) fs.push_back(std::make_shared<BezierTP<d, range>>(tsize<d>(o), c));
      else fs.push_back(std::make_shared<MonomialsTP<d, range>>(tsize<d>(o), c));
      names.push_back((bzr ? "Bezier " : "monomials ") + s<d>(o));
    }
  Ord<d> two;
  two.fill(2);
  for (int what = 0; what < 3; ++what) {
    if (!vf::want("succession", vf::str("successions ", d, "D->", range, " up to ", hi, " of order ", what))) continue;
    vf::nontrivial();
    vf::guarded([&] {
      for (const auto &p : grid<d>(two, 1)) {
        std::vector<std::vector<double>> alone;
        for (const auto &f : fs) {
          Point<d> q;
          for (int k = 0; k < d; ++k) q(k) = 0.4321 + 0.1 * k;
          for (int w = 0; w < 3; ++w) numbers_of<d, range>(*f, q, w);
          alone.push_back(numbers_of<d, range>(*f, p, what));
        }
        for (std::size_t i = 0; i < fs.size(); ++i)
          for (std::size_t j = i; j < fs.size(); ++j)
            for (const auto k : { i, j })
              if (!vf::check(numbers_of<d, range>(*fs[k], p, what) == alone[k], names[k], " is different at ", s<d>(p), " after ", names[i], " or ", names[j])) return;
        const auto lives = [&](auto &o, const std::string &of) {
          for (const auto &a : os)
            for (const auto &b : os) {
              const auto ca = coefs<d, range>(vectors<d>(a).back()), cb = coefs<d, range>(vectors<d>(b).front());
              auto fresh = std::make_shared<typename std::remove_reference_t<decltype(o)>::value_type>(tsize<d>(b), cb);
              const auto want = numbers_of<d, range>(*fresh, p, what);
              o.emplace(tsize<d>(a), ca);
              numbers_of<d, range>(*o, p, what);
              o.reset();
              o.emplace(tsize<d>(b), cb);
              if (!vf::check(numbers_of<d, range>(*o, p, what) == want, of, s<d>(b), " at ", s<d>(p), " depends on that of ", s<d>(a), " before it")) return;
              if (a != b) continue;
              for (int f = 0; f < size<d>(b); ++f) o->get_coef(f) = ca[static_cast<std::size_t>(f)];
              const std::remove_reference_t<decltype(*o)> other(tsize<d>(b), ca);
              if (!vf::check(numbers_of<d, range>(*o, p, what) == numbers_of<d, range>(other, p, what), of, s<d>(b), " at ", s<d>(p), ": changed coefficients")) return;
            }
        };
        std::optional<BezierTP<d, range>> b;
        lives(b, "Bezier ");
        std::optional<MonomialsTP<d, range>> m;
        lives(m, "monomials ");
      }
    });
  }
}
// sum, difference and product of every pair of vectors of the basis
template<int d, int range> void pairs(int hi, bool all)
{
  for (const auto &a : orders<d>(1, hi))
    for (const auto &b : orders<d>(1, hi)) {
      if (!vf::want("pair", vf::str("pairs ", d, "D->", range, " ", s<d>(a), " ", s<d>(b)))) continue;
      vf::nontrivial();
      vf::guarded([&] {
        const auto va = vectors<d>(a), vb = vectors<d>(b);
        Ord<d> mx, pr;
        for (int i = 0; i < d; ++i) {
          mx[i] = std::max(a[i], b[i]);
          pr[i] = a[i] + b[i] - 1;
        }
        for (std::size_t i = 0; i < va.size(); ++i)
          for (std::size_t j = 0; j < vb.size(); ++j) {
            if (!all && i + 1 != va.size() && j + 1 != vb.size() && (i + j) % 3) continue;
            const BezierTP<d, range> x(tsize<d>(a), coefs<d, range>(va[i]));
            const BezierTP<d, range> y(tsize<d>(b), coefs<d, range>(vb[j]));
            const auto w = vf::str(" #", i, " #", j, ": ");
            const auto add = x + y;
            const auto sub = x - y;
            const auto mul = x * y;
            if (!has_order<d, range>(*add, mx, "sum" + w) || !has_order<d, range>(*sub, mx, "difference" + w) || !has_order<d, range>(*mul, pr, "product" + w)) return;
            for (const auto &p : grid<d>(pr, 0)) {
              const auto u = value<d>(BZR, a, va[i], p, Ord<d>{});
              const auto v = value<d>(BZR, b, vb[j], p, Ord<d>{});
              if (!close<range>((*add)(p), u + v, 1000, "sum" + w + s<d>(p))) return;
              if (!close<range>((*sub)(p), u - v, 1000, "difference" + w + s<d>(p))) return;
              const auto m = (*mul)(p);
              for (int r = 0; r < range; ++r)
                if (!vf::check(std::abs(comp<range>(m, r) - u * v * cscale(r) * cscale(r)) <= 1e-9L * (1 + std::abs(u * v)), "product", w, s<d>(p), ": ", comp<range>(m, r), " instead of ", static_cast<double>(u * v * cscale(r) * cscale(r)))) return;
            }
          }
      });
    }
}
// lhs(rhs(x)) for every vector of the basis of lhs and dense maps rhs
template<int sd, int d, int range> void compositions(int hl, int hr)
{
  for (const auto &a : orders<d>(1, hl))
    for (const auto &b : orders<sd>(1, hr)) {
      if (!vf::want("composition", vf::str("composition ", sd, "D->", d, "D->", range, " ", s<d>(a), " ", s<sd>(b)))) continue;
      vf::nontrivial();
      vf::guarded([&] {
        const int n = size<sd>(b);
        std::vector<std::conditional_t<d == 1, real, Point<d>>> rc(n);
        for (int f = 0; f < n; ++f)
          for (int i = 0; i < d; ++i) {
            const double v = ((f * 5 + i * 3 + 1) % 7) / 7.0;
            if constexpr (d == 1) rc[f] = v;
            else rc[f](i) = v;
          }
        const BezierTP<sd, d> rhs(tsize<sd>(b), rc);
        for (const auto &v : vectors<d>(a)) {
          const BezierTP<d, range> lhs(tsize<d>(a), coefs<d, range>(v));
          const auto c = lhs.compose(rhs);
          int deg = 0;
          for (int i : a) deg += i - 1;
          Ord<sd> no;
          for (int i = 0; i < sd; ++i) no[i] = deg * (b[i] - 1) + 1;
          for (const auto &p : grid<sd>(Ord<sd>(no), 0)) {
            bool in = true;
            for (int i = 0; i < sd; ++i) in &= p(i) >= 0 && p(i) <= 1;
            if (!in) continue;
            const auto q0 = rhs(p);
            Point<d> q;
            for (int i = 0; i < d; ++i) {
              if constexpr (d == 1) q(i) = q0;
              else q(i) = q0(i);
            }
            if (!close<range>((*c)(p), value<d>(BZR, a, v, q, Ord<d>{}), 1e4, "composition at " + s<sd>(p))) return;
          }
        }
      });
    }
}
void bases()
{
  const int hi = vf::thorough ? 9 : 7;
  for (int n = 1; n <= hi; ++n)
    for (int der = 0; der <= n + 1; ++der)
      if (vf::want("Bernstein", vf::str("Bernstein ", n, " derivative ", der))) {
        vf::nontrivial();
        for (const double x : { 0., 0.25, 0.5, 0.7, 1., -0.3, 1.5 }) {
          std::vector<real> v(static_cast<std::size_t>(n), 9);
          evaluate_Bernstein(x, n, der, v);
          if (!vf::check(static_cast<int>(v.size()) == n, "there are ", v.size(), " values")) return;
          for (int i = 0; i < n; ++i)
            if (!close<1>(v[i], bern(i, n, x, der), 1e4, vf::str("polynomial ", i, " at ", x))) break;
        }
      }
  for (int n = 2; n <= hi; ++n)
    for (int ch = 0; ch < 2; ++ch)
      if (vf::want("Lagrange", vf::str("Lagrange ", n, ch ? " Chebyshev" : " equidistant"))) {
        vf::nontrivial();
        std::vector<ld> node;
        for (int i = 0; i < n; ++i) node.push_back(ch ? ::algoim::bernstein::modifiedChebyshevNode(i, n) : static_cast<ld>(i) / (n - 1));
        std::vector<double> xs{ 0, 1, 0.5, 0.13, 0.77, -0.2, 1.1 };
        for (const ld v : node) xs.push_back(static_cast<double>(v));
        for (const double x : xs) {
          std::vector<real> v(3, 5), w(11, 5);
          evaluate_Lagrange_basis_1D(x, n, ch != 0, v);
          evaluate_Lagrange_basis_der_1D(x, n, ch != 0, w);
          if (!vf::check(static_cast<int>(v.size()) == n && static_cast<int>(w.size()) == n, "there are ", v.size(), " values")) return;
          for (int i = 0; i < n; ++i) {
            ld p = 1, dp = 0;
            for (int j = 0; j < n; ++j)
              if (j != i) {
                p *= (x - node[j]) / (node[i] - node[j]);
                ld t = 1 / (node[i] - node[j]);
                for (int k = 0; k < n; ++k)
                  if (k != i && k != j) t *= (x - node[k]) / (node[i] - node[k]);
                dp += t;
              }
            close<1>(v[i], p, 1e3, vf::str("polynomial ", i, " at ", x));
            close<1>(w[i], dp, 1e4, vf::str("derivative of polynomial ", i, " at ", x));
          }
        }
      }
}
template<int d> void lagrange(int hi)
{
  for (const auto &o : orders<d>(2, hi))
    for (int ch = 0; ch < 2; ++ch)
      if (vf::want("Lagrange", vf::str("Lagrange ", d, "D ", s<d>(o), ch ? " Chebyshev" : " equidistant"))) {
        vf::nontrivial();
        for (const auto &p : grid<d>(o, 0)) {
          std::vector<real> b(2, 4);
          Vector<std::vector<real>, d> g;
          evaluate_Lagrange_basis<d>(p, tsize<d>(o), ch != 0, b);
          evaluate_Lagrange_derivative<d>(p, tsize<d>(o), ch != 0, g);
          if (!vf::check(static_cast<int>(b.size()) == size<d>(o), "there are ", b.size(), " values")) return;
          for (int i = 0; i < d; ++i)
            if (!vf::check(static_cast<int>(g(i).size()) == size<d>(o), "there are ", g(i).size(), " derivatives")) return;
          std::array<std::vector<real>, d> v, w;
          for (int i = 0; i < d; ++i) {
            evaluate_Lagrange_basis_1D(p(i), o[i], ch != 0, v[i]);
            evaluate_Lagrange_basis_der_1D(p(i), o[i], ch != 0, w[i]);
          }
          for (int f = 0; f < size<d>(o); ++f) {
            const auto t = unflat<d>(f, o);
            for (int der = -1; der < d; ++der) {
              double e = 1;
              for (int i = 0; i < d; ++i) e *= (i == der ? w : v)[i][t[i]];
              if (!vf::eq(der < 0 ? b[f] : g(der)[f], e, 1e-10, der < 0 ? "function " : "derivative of function ", f, " at ", s<d>(p))) return;
            }
          }
        }
      }
}
}// namespace
void run()
{
  const bool t = vf::thorough;
  bases();
  lagrange<1>(t ? 7 : 5);
  lagrange<2>(t ? 5 : 4);
  lagrange<3>(t ? 4 : 3);
  singles<1, 1>(t ? 9 : 7);
  singles<1, 2>(5);
  singles<1, 3>(5);
  singles<2, 1>(t ? 5 : 4);
  singles<2, 2>(3);
  singles<2, 3>(3);
  singles<3, 1>(t ? 4 : 3);
  singles<3, 2>(t ? 3 : 2);
  singles<3, 3>(t ? 3 : 2);
  successions<1, 1>(6);
  successions<2, 1>(4);
  successions<3, 1>(3);
  successions<1, 2>(4);
  successions<2, 2>(3);
  successions<2, 3>(3);
  successions<3, 3>(2);
  pairs<1, 1>(t ? 7 : 6, true);
  pairs<1, 2>(4, true);
  pairs<1, 3>(4, true);
  pairs<2, 1>(t ? 4 : 3, true);
  pairs<2, 2>(t ? 3 : 2, true);
  pairs<2, 3>(t ? 3 : 2, true);
  pairs<3, 1>(t ? 3 : 2, true);
  pairs<3, 2>(2, true);
  pairs<3, 3>(2, true);
  compositions<1, 1, 1>(4, 3);
  compositions<2, 1, 1>(3, 2);
  compositions<3, 1, 1>(3, 2);
  compositions<1, 2, 1>(3, 3);
  compositions<2, 2, 1>(3, 2);
  compositions<3, 2, 1>(3, 2);
  compositions<1, 3, 1>(3, 2);
  compositions<2, 3, 1>(2, 2);
  compositions<3, 3, 1>(2, 2);
  compositions<1, 1, 2>(3, 3);
  compositions<2, 2, 2>(3, 2);
  compositions<2, 2, 3>(2, 2);
  compositions<2, 3, 3>(2, 2);
  compositions<3, 3, 3>(2, 2);
}
