// C12: tensor indices, ranges and Cartesian grids, against plain integers and sets of tuples.
#include "vf.hpp"
#include <algorithm>
#include <array>
#include <memory>
#include <qugar/bbox.hpp>
#include <qugar/cart_grid_tp.hpp>
#include <qugar/point.hpp>
#include <qugar/tensor_index_tp.hpp>
#include <qugar/tolerance.hpp>
using namespace qugar;
namespace {
template<int d> using Tup = std::array<int, d>;
template<int d> std::string s(const Tup<d> &t)
{
  std::string o = "(";
  for (int i = 0; i < d; ++i) o += (i ? "," : "") + std::to_string(t[i]);
  return o + ")";
}
// every tuple with lo <= t < hi, the first component running fastest
template<int d> std::vector<Tup<d>> all(const Tup<d> &lo, const Tup<d> &hi)
{
  std::vector<Tup<d>> o;
  for (int i = 0; i < d; ++i)
    if (lo[i] >= hi[i]) return o;
  Tup<d> t = lo;
  while (true) {
    o.push_back(t);
    int k = 0;
    while (k < d && ++t[k] == hi[k]) { t[k] = lo[k]; ++k; }
    if (k == d) return o;
  }
}
template<int d> Tup<d> con(int v) { Tup<d> t; t.fill(v); return t; }
template<int d> Vector<int, d> vec(const Tup<d> &t)
{
  Vector<int, d> v;
  for (int i = 0; i < d; ++i) v(i) = t[i];
  return v;
}
template<int d> TensorIndexTP<d> ind(const Tup<d> &t) { return TensorIndexTP<d>(vec<d>(t)); }
template<int d> TensorSizeTP<d> siz(const Tup<d> &t) { return TensorSizeTP<d>(vec<d>(t)); }
template<int d, typename V> Tup<d> tup(const V &v)
{
  Tup<d> t;
  for (int i = 0; i < d; ++i) t[i] = v(i);
  return t;
}

template<int d> void indices(int n)
{
  for (const auto &sz : all<d>(con<d>(0), con<d>(n + 1)))
    if (vf::want("shape", vf::str("flat", d, s<d>(sz)))) {
      const auto every = all<d>(con<d>(0), sz);
      if (every.size() > 1) vf::nontrivial();
      const auto S = siz<d>(sz);
      const auto I = ind<d>(sz);
      vf::check(S.size() == every.size(), "size() is ", S.size(), " for ", every.size(), " entries");
      vf::check(tup<d>(S + siz<d>(con<d>(2))) == tup<d>(vec<d>(sz) + 2), "sum of sizes");
      vf::check(tup<d>(S) == sz && S == TensorSizeTP<d>(I) && TensorSizeTP<d>(TensorIndexTP<d>(S)) == S, "a size is not kept by conversion");
      for (std::size_t f = 0; f < every.size(); ++f) {
        const auto ff = static_cast<std::int64_t>(f);
        const TensorIndexTP<d> t(ff, S), t2(ff, I);
        vf::check(tup<d>(t) == every[f], "entry ", f, " is ", s<d>(tup<d>(t)), " instead of ", s<d>(every[f]));
        vf::check(t == t2, "the type of the size changes entry ", f);
        vf::check(t.flat(S) == ff && t.flat(I) == ff, s<d>(every[f]), " gets the flat index ", t.flat(S), " instead of ", f);
        vf::check(ind<d>(every[f]).flat(S) == ff, s<d>(every[f]), " built from its components gets another flat index");
      }
    }
  // sizes beyond the 32-bit range
  for (const auto &sz : all<d>(con<d>(0), con<d>(4))) {
    const int big[4] = { 1, 3, 1291, 50000 };
    Tup<d> z;
    for (int i = 0; i < d; ++i) z[i] = big[sz[i]];
    if (vf::want("large shape", vf::str("large", d, s<d>(z)))) {
      vf::nontrivial();
      std::int64_t total = 1;
      for (int i = 0; i < d; ++i) total *= z[i];
      const auto S = siz<d>(z);
      vf::check(static_cast<std::int64_t>(S.size()) == total, "size() is ", S.size(), " instead of ", total);
      std::set<std::int64_t> fs{ 0, total - 1, total / 2, total / 3, 2 * (total / 3) };
      std::int64_t acc = 1;
      for (int i = 0; i < d; ++i)
        for (std::int64_t q : { acc - 1, acc, acc + 1 , total - acc}) {
          if (q >= 0 && q < total) fs.insert(q);
          if (i + 1 == d) break;
          acc *= i + 1 == d ? 1 : 1;
        }
      for (int i = 0; i < d; acc *= z[i], ++i)
        for (std::int64_t q : { acc - 1, acc, total - acc })
          if (q >= 0 && q < total) fs.insert(q);
      for (auto f : fs) {
        const TensorIndexTP<d> t(f, S);
        std::int64_t r = f;
        for (int i = 0; i < d; r /= z[i], ++i) vf::check(t(i) == r % z[i], "component ", i, " of entry ", f, " is ", t(i), " instead of ", r % z[i]);
        if (vf::failed) break;
        vf::check(t.flat(S) == f, "the flat index of entry ", f, " is ", t.flat(S));
      }
    }
  }
  // order: the last component counts most, then the one before...: the order of the flat indices
  const int m = d == 3 ? 3 : 4;
  const auto every = all<d>(con<d>(0), con<d>(m));
  for (std::size_t a = 0; a < every.size(); ++a)
    if (vf::want("order", vf::str("order", d, s<d>(every[a])))) {
      vf::nontrivial();
      for (std::size_t b = 0; b < every.size(); ++b) {
        const auto A = ind<d>(every[a]), B = ind<d>(every[b]);
        vf::check((A < B) == (a < b), s<d>(every[a]), " < ", s<d>(every[b]), " is ", A < B);
        vf::check((A == B) == (a == b) && (A != B) == (a != b), "equality of ", s<d>(every[a]), " and ", s<d>(every[b]));
        if (a == b) vf::check(A.hash() == B.hash() && std::hash<TensorIndexTP<d>>{}(A) == std::hash<TensorIndexTP<d>>{}(B), "equal indices with different hashes");
      }
    }
}

template<int d> void check_range(const TensorIndexRangeTP<d> &r, const Tup<d> &lo, const Tup<d> &hi, const std::string &what)
{
  const auto every = all<d>(lo, hi);
  vf::check(r.size() == every.size() && r.get_sizes().size() == every.size(), what, ": size ", r.size(), " for ", every.size(), " entries");
  vf::check(tup<d>(r.get_lower_bound()) == lo && tup<d>(r.get_upper_bound()) == hi, what, ": wrong bounds");
  std::size_t k = 0;
  for (const auto &t : r) {
    if (!vf::check(k < every.size(), what, ": visits more entries than there are, for example ", s<d>(tup<d>(t)))) return;
    if (!vf::check(tup<d>(t) == every[k], what, ": visits ", s<d>(tup<d>(t)), " instead of ", s<d>(every[k]))) return;
    ++k;
  }
  vf::check(k == every.size(), what, ": visits ", k, " entries of ", every.size());
  auto it = r.cbegin();
  const auto S = siz<d>(hi);
  for (k = 0; k < every.size(); ++k) {
    vf::check(it != r.cend() && !(it == r.end()), what, ": ends early");
    std::int64_t f = 0, acc = 1;
    for (int i = 0; i < d; acc *= hi[i], ++i) f += every[k][i] * acc;
    vf::check(it.flat() == f && it->flat(S) == f, what, ": flat index of ", s<d>(every[k]));
    const auto old = it++;
    vf::check(tup<d>(*old) == every[k], what, ": post-increment returns another entry");
  }
  vf::check(it == r.cend() && it == r.end(), what, ": the end is not reached");
}

template<int d> void ranges(int n)
{
  for (const auto &lo : all<d>(con<d>(0), con<d>(n + 1)))
    for (const auto &w : all<d>(con<d>(0), con<d>(n + 1))) {
      Tup<d> hi;
      bool in = true;
      for (int i = 0; i < d; ++i) {
        hi[i] = lo[i] + w[i];
        in = in && hi[i] <= n;
      }
      if (!in || !vf::want("range", vf::str("range", d, s<d>(lo), s<d>(hi)))) continue;
      const auto every = all<d>(lo, hi);
      if (every.size() != 1) vf::nontrivial();
      const TensorIndexRangeTP<d> r(ind<d>(lo), ind<d>(hi));
      check_range<d>(r, lo, hi, "range");
      if (lo == con<d>(0)) {
        check_range<d>(TensorIndexRangeTP<d>(ind<d>(hi)), lo, hi, "range from its upper bound");
        check_range<d>(TensorIndexRangeTP<d>(siz<d>(hi)), lo, hi, "range from its size");
        if (hi == con<d>(hi[0])) check_range<d>(TensorIndexRangeTP<d>(hi[0]), lo, hi, "range from one number");
      }
      const std::set<Tup<d>> in_(every.begin(), every.end());
      const auto total = siz<d>(con<d>(n + 1));
      std::int64_t f = 0;
      for (const auto &t : all<d>(con<d>(0), con<d>(n + 1))) {
        vf::check(r.is_in_range(ind<d>(t)) == (in_.count(t) == 1), "is_in_range", s<d>(t));
        vf::check(r.is_in_range(f, total) == (in_.count(t) == 1), "is_in_range of the flat index of ", s<d>(t));
        ++f;
      }
      vf::check(!r.is_in_range(f, total) && !r.is_in_range(f + 7, total), "a flat index beyond the size is taken as inside");
      if (every.size() > 1) {
        const auto h = r.split();
        check_range<d>(h[0], tup<d>(h[0].get_lower_bound()), tup<d>(h[0].get_upper_bound()), "first half");
        check_range<d>(h[1], tup<d>(h[1].get_lower_bound()), tup<d>(h[1].get_upper_bound()), "second half");
        std::set<Tup<d>> un;
        std::size_t n_ = 0;
        for (const auto &x : h) {
          vf::check(x.size() > 0, "an empty half");
          for (const auto &t : all<d>(tup<d>(x.get_lower_bound()), tup<d>(x.get_upper_bound()))) {
            un.insert(t);
            ++n_;
          }
        }
        vf::check(un == in_ && n_ == in_.size(), "the halves of ", s<d>(lo), s<d>(hi), " do not make the range");
        int big = 0;
        for (int i = 0; i < d; ++i) big = std::max(big, w[i]);
        int changed = 0;
        for (int i = 0; i < d; ++i)
          if (h[0].get_upper_bound()(i) != hi[i]) {
            ++changed;
            vf::check(w[i] == big, "not split along the longest direction");
          }
        vf::check(changed == 1, "split along several directions");
      }
    }
}

const std::vector<std::vector<double>> BREAKS = { { 0, 1 }, { 0, 0.25, 1 }, { -2, -0.5, 0, 3 }, { 1e3, 1001, 1001.5, 1002, 1010 }, { -1e-3, -2e-4, 1e-4, 5e-4, 6e-4, 1e-3 } };

template<int d> void check_grid(const CartGridTP<d> &g, const std::array<std::vector<double>, d> &br, double tolv)
{
  Tup<d> nc;
  for (int i = 0; i < d; ++i) nc[i] = static_cast<int>(br[i].size()) - 1;
  const auto cells = all<d>(con<d>(0), nc);
  vf::check(g.get_num_cells() == cells.size() && tup<d>(g.get_num_cells_dir()) == nc, "number of cells");
  for (int i = 0; i < d; ++i) {
    vf::check(g.get_breaks(i).size() == br[i].size(), "number of breaks of direction ", i);
    if (vf::failed) return;
    for (std::size_t k = 0; k < br[i].size(); ++k) vf::check(std::abs(g.get_breaks(i)[k] - br[i][k]) <= tolv, "break ", k, " of direction ", i, " is ", g.get_breaks(i)[k], " instead of ", br[i][k]);
    vf::check(g.get_domain().min(i) == g.get_breaks(i).front() && g.get_domain().max(i) == g.get_breaks(i).back(), "domain along ", i);
  }
  std::array<std::vector<std::int64_t>, 2 * d> bnd;
  for (std::size_t f = 0; f < cells.size(); ++f) {
    const auto ff = static_cast<std::int64_t>(f);
    vf::check(g.to_flat(ind<d>(cells[f])) == ff && tup<d>(g.to_tensor(ff)) == cells[f], "indices of cell ", f);
    const auto box = g.get_cell_domain(ff);
    for (int i = 0; i < d; ++i) {
      const auto &b = g.get_breaks(i);
      vf::check(box.min(i) == b[cells[f][i]] && box.max(i) == b[cells[f][i] + 1], "box of cell ", f, " along ", i);
      for (int side = 0; side < 2; ++side) {
        const bool on = cells[f][i] == (side ? nc[i] - 1 : 0);
        vf::check(g.on_boundary(ff, 2 * i + side) == on, "facet ", 2 * i + side, " of cell ", f, " on the boundary is ", !on);
        if (on) bnd[2 * i + side].push_back(ff);
      }
    }
  }
  for (int f = 0; f < 2 * d; ++f) vf::check(g.get_boundary_cells(f) == bnd[f], "cells of the side ", f);
  // points: middles and breaks of every direction, and just at both sides of a break
  const Tolerance tol;
  for (const Tolerance &tl : { Tolerance(), Tolerance(1e-7) })
    for (const auto &t : all<d>(con<d>(0), [&] { Tup<d> x; for (int i = 0; i < d; ++i) x[i] = 6 * nc[i] + 1; return x; }())) {
      Point<d> p;
      Tup<d> lowest;
      int bdir = -1;
      bool skip = false;
      for (int i = 0; i < d; ++i) {
        const auto &b = g.get_breaks(i);
        const int k = t[i] / 6, m = t[i] % 6;
        const double eps = 0.5 * tl.value(), out = 16 * tl.value() * (1 + std::abs(b[k]) * 64);
        if (d == 3 && m != 0 && m != 3 && m != 2 + i) skip = true;// 3D: one kind of near point per direction
        const double x[6] = { b[k], b[k] + eps, b[k] + out, k < nc[i] ? 0.5 * (b[k] + b[k + 1]) : 0, k < nc[i] ? b[k + 1] - out : 0, k < nc[i] ? b[k + 1] - eps : 0 };
        p(i) = x[m];
        const bool at0 = m < 2, at1 = m == 5;
        if (m == 1 && !tl.equal(p(i), b[k])) skip = true;
        if (m == 5 && !tl.equal(p(i), b[k + 1])) skip = true;
        lowest[i] = at0 ? std::max(0, k - 1) : k;
        const int br_ = at0 ? k : at1 ? k + 1 : -1;
        if (bdir < 0 && br_ > 0 && br_ < nc[i]) bdir = i;
      }
      if (skip) continue;
      const auto cell = g.get_cell_id(p, tl);
      vf::check(cell == ind<d>(lowest).flat(siz<d>(nc)), "the point numbered ", s<d>(t), " with tolerance ", tl.value(), " is found in cell ", cell, " instead of ", ind<d>(lowest).flat(siz<d>(nc)));
      const auto at = g.at_cells_boundary(p, tl);
      vf::check((at.has_value() ? *at : -1) == bdir, "the point numbered ", s<d>(t), " with tolerance ", tl.value(), " is at the boundary of direction ", at.has_value() ? *at : -1, " instead of ", bdir);
    }
}

template<int d> void grids()
{
  for (const auto &c : all<d>(con<d>(0), con<d>(5))) {
    if (!vf::want("grid", vf::str("grid", d, s<d>(c)))) continue;
    vf::nontrivial();
    std::array<std::vector<double>, d> br;
    for (int i = 0; i < d; ++i) br[i] = BREAKS[c[i]];
    check_grid<d>(CartGridTP<d>(br), br, 0.0);
  }
  const double DOM[4][2] = { { 0, 1 }, { -0.3, 0.4 }, { 0.1, 1e3 }, { -7, -1.0 / 3 } };
  for (const auto &n : all<d>(con<d>(1), con<d>(d == 2 ? 8 : 5)))
    for (int k = 0; k < 5; ++k) {
      if (!vf::want("even grid", vf::str("even", d, s<d>(n), ":", k))) continue;
      vf::nontrivial();
      std::array<std::size_t, d> ns;
      std::array<std::vector<double>, d> br;
      Point<d> a, b;
      for (int i = 0; i < d; ++i) {
        ns[i] = static_cast<std::size_t>(n[i]);
        a(i) = k == 4 ? 0 : DOM[(k + i) % 4][0];
        b(i) = k == 4 ? 1 : DOM[(k + i) % 4][1];
        for (int j = 0; j <= n[i]; ++j) br[i].push_back(a(i) + (b(i) - a(i)) * j / n[i]);
      }
      check_grid<d>(k == 4 ? CartGridTP<d>(ns) : CartGridTP<d>(BoundBox<d>(a, b), ns), br, 1e-12);
    }
  // sub-grids
  std::array<std::vector<double>, d> br;
  for (int i = 0; i < d; ++i) br[i] = BREAKS[d == 2 ? 4 - i : 2 + (i == 1)];
  Tup<d> nc;
  for (int i = 0; i < d; ++i) nc[i] = static_cast<int>(br[i].size()) - 1;
  const auto g = std::make_shared<const CartGridTP<d>>(br);
  for (const auto &lo : all<d>(con<d>(0), nc))
    for (const auto &hi : all<d>([&] { auto x = lo; for (auto &v : x) ++v; return x; }(), [&] { auto x = nc; for (auto &v : x) ++v; return x; }())) {
      if (!vf::want("sub-grid", vf::str("sub", d, s<d>(lo), s<d>(hi)))) continue;
      vf::nontrivial();
      const auto every = all<d>(lo, hi);
      const auto one = [&](const SubCartGridTP<d> &q, const Tup<d> &l, const Tup<d> &h) {
        const auto ev = all<d>(l, h);
        vf::check(q.get_num_cells() == ev.size(), "number of cells");
        vf::check(q.is_unique_cell() == (ev.size() == 1), "is_unique_cell");
        vf::check(q.is_full() == (ev.size() == g->get_num_cells()), "is_full");
        vf::check(tup<d>(q.get_range().get_lower_bound()) == l && tup<d>(q.get_range().get_upper_bound()) == h, "range");
        vf::check(q.get_grid() == g, "another parent");
        for (int i = 0; i < d; ++i) {
          vf::check(q.get_domain().min(i) == br[i][l[i]] && q.get_domain().max(i) == br[i][h[i]], "domain along ", i);
          vf::check(q.get_num_cells_dir()(i) == h[i] - l[i], "cells along ", i);
        }
        for (const auto &t : ev) vf::check(q.to_flat(ind<d>(t)) == ind<d>(t).flat(siz<d>(nc)), "flat index of ", s<d>(t));
        if (ev.size() == 1) vf::check(q.get_single_cell() == ind<d>(l).flat(siz<d>(nc)), "get_single_cell");
      };
      const SubCartGridTP<d> q(g, ind<d>(lo), ind<d>(hi));
      one(q, lo, hi);
      one(SubCartGridTP<d>(g, TensorIndexRangeTP<d>(ind<d>(lo), ind<d>(hi))), lo, hi);
      if (lo == con<d>(0) && hi == nc) one(SubCartGridTP<d>(g), lo, hi);
      if (every.size() > 1) {
        const auto h = q.split();
        std::set<Tup<d>> un;
        std::size_t n_ = 0;
        for (const auto &x : h) {
          const auto l = tup<d>(x->get_range().get_lower_bound()), u = tup<d>(x->get_range().get_upper_bound());
          one(*x, l, u);
          for (const auto &t : all<d>(l, u)) { un.insert(t); ++n_; }
        }
        vf::check(n_ == every.size() && un == std::set<Tup<d>>(every.begin(), every.end()), "the halves do not make the sub-grid");
        vf::check(h[0]->get_num_cells() > 0 && h[1]->get_num_cells() > 0, "an empty half");
      }
    }
  // a grid with more cells than a 32-bit number holds
  if constexpr (d == 2) {
    if (vf::want("large grid", "large grid")) {
      vf::nontrivial();
      const int n = 47000;
      std::array<std::size_t, 2> ns{ 47000, 47000 };
      const CartGridTP<2> big(BoundBox<2>(0.0, 47000.0), ns);
      const auto N = static_cast<std::int64_t>(n) * n;
      vf::check(static_cast<std::int64_t>(big.get_num_cells()) == N, "number of cells ", big.get_num_cells());
      for (int f = 0; f < 4; ++f) {
        const auto c = big.get_boundary_cells(f);
        vf::check(c.size() == n, "cells of the side ", f);
        for (std::size_t k = 0; k < c.size(); ++k) {
          const auto kk = static_cast<std::int64_t>(k);
          const std::int64_t want[4] = { kk * n, kk * n + n - 1, kk, N - n + kk };
          if (!vf::check(c[k] == want[f], "cell ", k, " of the side ", f, " is ", c[k], " instead of ", want[f])) return;
        }
      }
      for (std::int64_t f : { std::int64_t(0), std::int64_t(n), N - 1, N - n, N / 2, std::int64_t(1) << 31 }) {
        const auto t = big.to_tensor(f);
        vf::check(t(0) == f % n && t(1) == f / n && big.to_flat(t) == f, "tensor index of cell ", f);
        Point<2> p(t(0) + 0.5, t(1) + 0.5);
        vf::check(big.get_cell_id(p) == f, "point in cell ", f, " is found in ", big.get_cell_id(p));
        vf::check(big.on_boundary(f, 3) == (f >= N - n), "cell ", f, " on the last side");
      }
    }
  }
}
}// namespace
void run()
{
  const int x = vf::thorough ? 2 : 0;
  indices<1>(8);
  indices<2>(5 + x);
  indices<3>(3 + x);
  ranges<1>(7);
  ranges<2>(4 + x);
  ranges<3>(3 + (vf::thorough ? 1 : 0));
  grids<2>();
  grids<3>();
}
