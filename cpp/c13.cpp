#include "doms.hpp"
#include <algorithm>
namespace {
using namespace doms;
constexpr std::int64_t i64(int x) { return x; }
template<int d> using U = UnfittedImplDomain<d>;
using Ids = std::vector<std::int64_t>;
// everything there is to say about a cell and its facets
template<int d> struct Said
{
  std::array<bool, 3> cell;
  bool bd, full_bd;
  std::array<std::array<bool, 6>, 2 * d> facet;
  bool operator==(const Said &) const = default;
};
const char *const what[] = { "full", "empty", "cut" };
template<int d> Said<d> ask(const U<d> &u, int c)
{
  Said<d> s;
  s.cell = { u.is_full_cell(c), u.is_empty_cell(c), u.is_cut_cell(c) };
  s.bd = u.is_cell_with_unf_bdry(c);
  s.full_bd = u.is_full_with_unf_bdry_cell(c);
  for (int f = 0; f < 2 * d; ++f)
    s.facet[f] = { u.is_full_facet(c, f), u.is_empty_facet(c, f), u.is_cut_facet(c, f), u.is_full_unfitted_facet(c, f), u.has_unfitted_boundary(c, f), u.has_external_boundary(c, f) };
  return s;
}
// is a middle point exactly on the boundary? Looking for roots by splitting intervals may miss them
template<int d> bool split_there(const Dom<d> &D, const Box<d> &b)
{
  A<d> m;
  for (int i = 0; i < d; ++i) m[i] = (b.lo[i] + b.hi[i]) / 2;
  return std::abs(D.val(m)) < 1e-9L;
}
// what a cell is said to be against where the domain is
template<int d> bool right(const Dom<d> &D, const Grid<d> &G, int c, const Said<d> &s)
{
  const auto b = G.cell(c);
  const Cat k = D.cat(b);
  const bool tangent = D.curved && D.touch(b);
  const int n = s.cell[0] + s.cell[1] + s.cell[2];
  if (!vf::check(n == 1, "cell ", c, " is in ", n, " classes")) return false;
  if (k == inside && !vf::check(s.cell[0] || (tangent && s.cell[2]), "cell ", c, " is inside and not full")) return false;
  if (k == none && !vf::check(s.cell[1] || (tangent && s.cell[2]), "cell ", c, " is outside and not empty")) return false;
  if (k == mixed && !vf::check(s.cell[2], "cell ", c, " is crossed by the boundary and not cut")) return false;
  if (!vf::check(!s.full_bd || s.cell[0], "cell ", c, " is full with unfitted boundary and not full")) return false;
  if (!vf::check(s.bd == (s.cell[2] || s.full_bd), "cell ", c, " with unfitted boundary")) return false;
  bool touched = false, loose = false;
  for (int f = 0; f < 2 * d; ++f) {
    const auto &t = s.facet[f];
    const int m = t[0] + t[1] + t[2] + t[3];
    if (!vf::check(m <= 1, "facet ", f, " of cell ", c, " is in ", m, " classes")) return false;
    if (!vf::check(!t[3] || t[4], "facet ", f, " of cell ", c, " is full unfitted without unfitted boundary")) return false;
    if (!vf::check(!(t[0] && (t[4] || t[5])) && !(t[1] && t[4]), "facet ", f, " of cell ", c, " has a boundary against its class")) return false;
    touched |= t[4];
    if (s.cell[1]) {
      if (!vf::check(t[1] && !t[4] && !t[5], "facet ", f, " of the empty cell ", c, " is not empty")) return false;
      continue;
    }
    const auto bf = facet_of<d>(b, f);
    const bool grazed = ((D.flat || D.curved) && D.touch(bf)) || (D.flat && split_there<d>(D, bf));
    const Cat q = grazed ? unsure : D.cat(bf);
    loose |= grazed || (D.rough && q == zero);
    bool ok = true;
    if (q == inside)
      ok = t[0];
    else if (q == none)
      ok = t[1];
    else if (q == mixed)
      ok = t[2] && !t[4];
    else if (q == zero)
      ok = D.rough && s.cell[0] ? t[0] || t[3] : s.cell[0] ? t[3] : !t[0] && !t[2];
    if (D.exact && q != unsure && q != zero) ok = ok && !t[4] && !t[5];
    if (!vf::check(ok, "facet ", f, " of cell ", c, ", ", cat_names[q], ", is classified as", t[0] ? " full" : "", t[1] ? " empty" : "", t[2] ? " cut" : "", t[3] ? " full unfitted" : "", t[4] ? " unfitted" : "", t[5] ? " external" : "")) return false;
  }
  return loose || vf::check(s.full_bd == (s.cell[0] && touched), "the full cell ", c, " is said to have ", s.full_bd ? "" : "no ", "unfitted boundary");
}
template<typename V> std::string list(const V &v)
{
  std::string o;
  for (const auto x : v) o += vf::str(o.empty() ? "" : ",", x);
  return "[" + o + "]";
}
// the lists of cells and facets against the answers for each of them
template<int d> bool lists(const U<d> &u, const std::vector<Said<d>> &said, const std::vector<int> &known)
{
  const int n = static_cast<int>(said.size());
  Ids out{ 77 }, want;
  for (int k = 0; k < 3; ++k) {
    want.clear();
    for (int c = 0; c < n; ++c)
      if (said[c].cell[k]) want.push_back(c);
    out = { 77 };
    k == 0 ? u.get_full_cells(out) : k == 1 ? u.get_empty_cells(out) : u.get_cut_cells(out);
    if (!vf::check(out == want, what[k], " cells: ", list(out), " instead of ", list(want))) return false;
    const auto m = k == 0 ? u.get_num_full_cells() : k == 1 ? u.get_num_empty_cells() : u.get_num_cut_cells();
    if (!vf::check(m == want.size(), "number of ", what[k], " cells: ", m)) return false;
    // some of the cells, in another order
    Ids some;
    for (auto it = known.rbegin(); it != known.rend(); ++it)
      if (*it % 3 != 1) some.push_back(*it);
    Ids w2;
    for (const auto c : want)
      if (std::find(some.begin(), some.end(), c) != some.end()) w2.push_back(c);
    out = { 77 };
    k == 0 ? u.get_full_cells(some, out) : k == 1 ? u.get_empty_cells(some, out) : u.get_cut_cells(some, out);
    std::sort(out.begin(), out.end());
    if (!vf::check(out == w2, what[k], " cells among ", list(some), ": ", list(out), " instead of ", list(w2))) return false;
  }
  using Pairs = std::vector<std::pair<std::int64_t, int>>;
  const auto zip = [](const Ids &c, const std::vector<int> &f) {
    Pairs p;
    for (std::size_t i = 0; i < std::min(c.size(), f.size()); ++i) p.emplace_back(c[i], f[i]);
    return p;
  };
  static const char *const kinds[] = { "full", "empty", "cut", "full unfitted", "unfitted" };
  for (int k = 0; k < 5; ++k) {
    Pairs w;
    for (int c = 0; c < n; ++c)
      for (int f = 0; f < 2 * d; ++f)
        if (said[c].facet[f][k]) w.emplace_back(c, f);
    Ids oc{ 77 };
    std::vector<int> of{ 7 };
    switch (k) {
    case 0: u.get_full_facets(oc, of); break;
    case 1: u.get_empty_facets(oc, of); break;
    case 2: u.get_cut_facets(oc, of); break;
    case 3: u.get_full_unfitted_facets(oc, of); break;
    default: u.get_unfitted_facets(oc, of);
    }
    if (!vf::check(oc.size() == of.size(), kinds[k], " facets: ", oc.size(), " cells and ", of.size(), " facets")) return false;
    auto p = zip(oc, of);
    std::sort(p.begin(), p.end());
    if (!vf::check(p == w, kinds[k], " facets: ", p.size(), " instead of ", w.size(), ", or others")) return false;
    // a selection of facets keeps their order
    Ids tc;
    std::vector<int> tf;
    Pairs w2;
    for (int i = 0; i < n * 2 * d; ++i) {
      const int j = (i * 7 + 3) % (n * 2 * d);
      if (n * 2 * d % 7 == 0 && j != (i * 7 + 3)) break;
      const int c = j / (2 * d), f = j % (2 * d);
      if (std::find(known.begin(), known.end(), c) == known.end() || j % 4 == 1) continue;
      tc.push_back(c);
      tf.push_back(f);
      if (said[c].facet[f][k]) w2.emplace_back(c, f);
    }
    oc = { 77 };
    of = { 7 };
    switch (k) {
    case 0: u.get_full_facets(tc, tf, oc, of); break;
    case 1: u.get_empty_facets(tc, tf, oc, of); break;
    case 2: u.get_cut_facets(tc, tf, oc, of); break;
    case 3: u.get_full_unfitted_facets(tc, tf, oc, of); break;
    default: u.get_unfitted_facets(tc, tf, oc, of);
    }
    if (!vf::check(oc.size() == of.size() && zip(oc, of) == w2, kinds[k], " facets among some: ", oc.size(), " instead of ", w2.size(), ", or others")) return false;
  }
  bool any = false;
  for (const auto &s : said)
    for (const auto &f : s.facet) any |= f[4];
  return vf::check(u.has_facets_with_unf_bdry() == any, "has_facets_with_unf_bdry");
}
template<int d> void one(const Dom<d> &D, const Grid<d> &G, int subsets)
{
  if (!vf::want(d == 2 ? "domain 2D" : "domain 3D", D.name + G.name)) return;
  vf::guarded([&] {
    const U<d> u(D.f, G.g);
    const int n = G.n();
    std::vector<Said<d>> said;
    std::vector<int> all_cells;
    for (int c = 0; c < n; ++c) {
      said.push_back(ask<d>(u, c));
      all_cells.push_back(c);
    }
    std::size_t kinds = 0;
    for (int k = 0; k < 3; ++k)
      for (const auto &s : said)
        if (s.cell[k]) {
          ++kinds;
          break;
        }
    if (kinds > 1) vf::nontrivial();
    if (!vf::check(u.get_num_total_cells() == static_cast<std::size_t>(n), "number of cells")) return;
    for (int c = 0; c < n; ++c) {
      if (!right<d>(D, G, c, said[c])) return;
      for (int f = 0; f < 2 * d; ++f)
        if (!vf::check(u.is_exterior_facet(c, f) == (G.next(c, f) < 0), "facet ", f, " of cell ", c, " at the exterior")) return;
    }
    if (!lists<d>(u, said, all_cells)) return;
    // the classes of some cells only
    const auto part = [&](const std::vector<int> &t) {
      const Ids ids(t.begin(), t.end());
      const U<d> v(D.f, G.g, ids);
      std::vector<Said<d>> got;
      for (int c = 0; c < n; ++c) got.push_back(ask<d>(v, c));
      for (const auto c : t)
        if (!vf::check(got[c] == said[c], "cell ", c, " is classified differently when asking for the cells ", list(t))) return false;
      for (int c = 0; c < n; ++c)// others: the same, or nothing
        if (got[c].cell[0] + got[c].cell[1] + got[c].cell[2] > 0 && !vf::check(got[c].cell == said[c].cell, "cell ", c, " is classified differently when asking for the cells ", list(t))) return false;
      return lists<d>(v, got, t);
    };
    if (subsets == 2 && n <= 6) {
      for (int m = 0; m < 1 << n; ++m) {
        std::vector<int> t;
        for (int c = 0; c < n; ++c)
          if (m >> c & 1) t.push_back(c);
        if (!part(t)) return;
        if (t.size() < 2) continue;
        // in other orders: all of them when they are few
        if (t.size() <= (vf::thorough ? 5U : 4U)) {
          while (std::next_permutation(t.begin(), t.end()))
            if (!part(t)) return;
        } else {
          for (std::size_t k = 1; k < t.size(); ++k) {
            std::rotate(t.begin(), t.begin() + 1, t.end());
            if (!part(t)) return;
          }
          std::reverse(t.begin(), t.end());
          if (!part(t)) return;
        }
      }
    } else if (subsets > 0) {
      for (int c = 0; c < n; ++c) {
        std::vector<int> t;
        for (int e = 0; e < n; ++e)
          if (e != c) t.push_back(e);
        if (!part({ c }) || !part(t)) return;
        std::rotate(t.begin(), t.begin() + c / 2, t.end());
        if (c % 2) std::reverse(t.begin(), t.end());
        if (!part(t)) return;
        if (c + 2 < n && !part({ c + 2, c })) return;
      }
    }
  });
}
const std::vector<double> B1{ 0, 1 }, B2{ 0, 0.5, 1 }, B3{ 0, 0.3, 0.7, 1 }, B4{ 0, 0.25, 0.5, 0.75, 1 }, C2{ -1, 0, 1 }, C3{ -1, -0.2, 0.4, 1 }, S2{ 1, 1.6, 2 };
template<int d> void over(const std::vector<Dom<d>> &ds, const std::vector<std::array<std::vector<double>, d>> &gs, int subsets)
{
  std::size_t k = 0;
  for (const auto &g : gs) {
    const auto G = grid<d>(g);
    for (const auto &D : ds) {
      const int s = subsets && (vf::thorough || ++k % 5 == 0) ? subsets : subsets ? 1 : 0;
      one<d>(D, G, s);
    }
  }
}
void two()
{
  using L = std::vector<std::array<std::vector<double>, 2>>;
  const L gs = vf::thorough ? L{ { B1, B1 }, { B2, B2 }, { B3, B2 }, { B4, B4 }, { C2, B3 }, { C3, C3 }, { S2, B2 }, { B1, S2 }, { C2, C2 } } : L{ { B1, B1 }, { B2, B3 }, { C3, C2 }, { S2, B2 }, { B4, B4 } };
  const std::vector<A<2>> cs = vf::thorough ? lattice<2>({ -0.4, 0, 0.25, 0.5, 1, 1.5 }) : lattice<2>({ 0, 0.5, 0.8, 1.5 });
  std::vector<Dom<2>> all_;
  const auto put = [&](const std::vector<Dom<2>> &v) { all_.insert(all_.end(), v.begin(), v.end()); };
  put(planes<2>(vf::thorough ? std::vector<double>{ -2, -1, 0, 1, 3 } : std::vector<double>{ -1, 0, 1, 3 }, { 0.0, 0.25, 0.5, 0.6, 1.0, 1.7 }));
  put(spheres<2>({ 0.25, 0.4, 0.5, 1.0, 1.3 }, cs));
  put(ellipsoids<2>({ { 0.3, 0.8 }, { 1.2, 0.5 } }, cs));
  put(linears<2>({ -1, 0, 0.5, 2 }, vf::thorough ? 1 : 3));
  put(annuli(cs));
  put(squares<2>(cs));
  put(surfaces<2>());
  const auto m = all_.size();
  for (std::size_t i = 0; i < m; i += vf::thorough ? 1 : 4) all_.push_back(negate<2>(all_[i]));
  // crosses of lines
  std::vector<std::pair<Dom<2>, RgF<2>>> ls;
  for (const auto &n : { A<2>{ 1, 0 }, A<2>{ 0, 1 }, A<2>{ 1, 1 }, A<2>{ 1, -2 } })
    for (const double o : { 0.25, 0.5, 0.6 }) {
      const auto r = r_plane<2>(fill<2>(o), n);
      const std::vector<double> c{ -(n[0] + n[1]) * o, n[0] - (n[0] + n[1]) * o, n[1] - (n[0] + n[1]) * o, n[0] + n[1] - (n[0] + n[1]) * o };
      ls.emplace_back(make<2>("line" + pt<2>(n) + vf::str("@", o), std::make_shared<BezierTP<2, 1>>(TensorSizeTP<2>(2), c), r), r);
    }
  for (const auto &[a, ra] : ls)
    for (const auto &[b, rb] : ls) all_.push_back(cross<2>(a, ra, b, rb));
  over<2>(all_, gs, 2);
}
void three()
{
  using L = std::vector<std::array<std::vector<double>, 3>>;
  const L gs = vf::thorough ? L{ { B1, B1, B1 }, { B2, B2, B2 }, { B3, B2, B1 }, { C2, B2, B2 }, { S2, B1, B2 }, { C3, C2, B1 }, { B1, B3, S2 } } : L{ { B2, B1, B1 }, { C2, B2, B2 }, { S2, B1, B2 } };
  const std::vector<A<3>> cs = vf::thorough ? lattice<3>({ 0, 0.5, 1.2 }) : std::vector<A<3>>{ { 0, 0, 0 }, { 0.5, 0.5, 0.5 }, { 0.5, 0, 1 }, { 1.5, 0.4, 0.8 } };
  std::vector<Dom<3>> all_;
  const auto put = [&](const std::vector<Dom<3>> &v) { all_.insert(all_.end(), v.begin(), v.end()); };
  put(planes<3>(vf::thorough ? std::vector<double>{ -1, 0, 1, 2 } : std::vector<double>{ -1, 0, 1 }, { 0.0, 0.5, 0.6, 1.7 }));
  put(spheres<3>({ 0.4, 0.5, 1.0 }, cs));
  put(ellipsoids<3>({ { 0.3, 0.8, 0.5 } }, cs));
  put(linears<3>({ -1, 0.5, 2 }, vf::thorough ? 37 : 401));
  put(solids(cs));
  put(surfaces<3>());
  const auto m = all_.size();
  for (std::size_t i = 0; i < m; i += vf::thorough ? 2 : 6) all_.push_back(negate<3>(all_[i]));
  over<3>(all_, gs, vf::thorough ? 2 : 1);
}
// The subdivision itself: every binary tree over a small grid with every assignment of classes to its leaves.
// A script gives, in preorder, what is done with each node; past its end the first possibility is taken.
template<int d> struct Tree
{
  using P = UnfittedBinarySpacePart<d>;
  using St = ImmersedCellStatus;
  std::vector<int> script, n_options;
  bool unknown;
  std::vector<std::pair<std::shared_ptr<P>, Ids>> nodes;
  std::vector<std::pair<std::shared_ptr<P>, St>> leaves;
  bool build(const std::shared_ptr<P> &p)
  {
    const auto n = p->get_grid()->get_num_cells_dir();
    Ids cells;
    for (const auto it : p->get_subgrid()->get_range()) cells.push_back(it.flat(n));
    std::sort(cells.begin(), cells.end());
    nodes.emplace_back(p, cells);
    const auto i = n_options.size();
    // full, empty, (branch or cut), unknown
    n_options.push_back(unknown ? 4 : 3);
    if (script.size() <= i) script.push_back(0);
    if (!vf::check(p->is_leaf() && p->get_child(0) == nullptr && p->get_child(1) == nullptr, "a new node has children")) return false;
    if (script[i] == 2 && cells.size() > 1) {
      p->branch();
      const auto a = p->get_child(0), b = p->get_child(1);
      return vf::check(!p->is_leaf() && a != nullptr && b != nullptr, "no children after branching") && build(a) && build(b);
    }
    const auto st = std::array<St, 4>{ St::full, St::empty, St::cut, St::unknown }[static_cast<std::size_t>(script[i])];
    if (st != St::unknown) p->set_status(st);
    leaves.emplace_back(p, st);
    return true;
  }
  bool next()
  {
    script.resize(n_options.size());
    while (!script.empty() && script.back() + 1 >= n_options[script.size() - 1]) {
      script.pop_back();
    }
    if (script.empty()) return false;
    ++script.back();
    n_options.clear();
    return true;
  }
};
template<int d> void trees(const std::array<std::size_t, d> &n, bool unknown)
{
  using P = UnfittedBinarySpacePart<d>;
  using St = ImmersedCellStatus;
  const auto grid = std::make_shared<const CartGridTP<d>>(BoundBox<d>(), n);
  const auto N = static_cast<std::int64_t>(grid->get_num_cells());
  std::string name;
  for (const auto i : n) name += vf::str(i, "x");
  Tree<d> t;
  t.unknown = unknown;
  bool more = true;
  while (more) {
    t.nodes.clear();
    t.leaves.clear();
    const auto root = std::make_shared<P>(grid);
    // built first: the key needs the whole script
    bool good = false;
    std::string why;
    try {
      good = t.build(root);
    } catch (const std::exception &e) {
      why = e.what();
    }
    std::string key = "tree " + name;
    for (std::size_t i = 0; i < t.n_options.size(); ++i) key += "febu"[t.script[i]];
    more = t.next();
    if (!vf::want("tree", key)) continue;
    if (t.leaves.size() > 1) vf::nontrivial();
    if (!vf::check(good, "the tree cannot be built ", why)) continue;
    std::vector<int> who(static_cast<std::size_t>(N), -1);
    for (const auto &[p, cells] : t.nodes) {
      if (!p->is_leaf()) continue;
      int l = 0;
      while (t.leaves[static_cast<std::size_t>(l)].first != p) ++l;
      for (const auto c : cells) {
        vf::check(who[static_cast<std::size_t>(c)] == -1, "cell ", c, " is in two leaves");
        who[static_cast<std::size_t>(c)] = l;
      }
    }
    if (!vf::check(std::find(who.begin(), who.end(), -1) == who.end(), "a cell is in no leaf")) continue;
    vf::guarded([&] {
      for (const auto &[p, cells] : t.nodes)
        for (std::int64_t c = 0; c < N; ++c)
          vf::check(p->is_in_tree(c) == std::binary_search(cells.begin(), cells.end(), c), "cell ", c, " in the tree of ", list(cells));
      for (std::int64_t c = 0; c < N; ++c)
        vf::check(root->find_leaf(c) == t.leaves[static_cast<std::size_t>(who[static_cast<std::size_t>(c)])].first, "leaf of the cell ", c);
      for (const St st : { St::full, St::empty, St::cut, St::unknown }) {
        Ids want, out{ 77 };
        for (std::int64_t c = 0; c < N; ++c) {
          const bool is = t.leaves[static_cast<std::size_t>(who[static_cast<std::size_t>(c)])].second == st;
          if (is) want.push_back(c);
          vf::check(root->is_cell(st, c) == is, "class of the cell ", c);
        }
        root->get_cell_ids(st, out);
        vf::check(out == want, "cells of a class: ", list(out), " instead of ", list(want));
        vf::check(root->get_num_cells(st) == want.size(), "number of cells of a class: ", root->get_num_cells(st));
        Ids some, w2;
        for (std::int64_t c = N - 1; c >= 0; --c)
          if (c % 3 != 1) some.push_back(c);
        for (const auto c : want)
          if (c % 3 != 1) w2.push_back(c);
        out = { 77 };
        root->get_cell_ids(st, some, out);
        std::sort(out.begin(), out.end());
        vf::check(out == w2, "cells of a class among some: ", list(out), " instead of ", list(w2));
        std::set<std::shared_ptr<const P>> wl;
        for (const auto &[p, s] : t.leaves)
          if (s == st) wl.insert(p);
        if constexpr (requires { root->get_num_leaves(st); })
          vf::check(root->get_num_leaves(st) == wl.size(), "number of leaves: ", root->get_num_leaves(st), " instead of ", wl.size());
        if constexpr (requires(std::vector<std::shared_ptr<const P>> v) { root->get_leaves(st, v); }) {
          std::vector<std::shared_ptr<const P>> v{ nullptr };
          root->get_leaves(st, v);
          vf::check(v.size() == wl.size() && std::set<std::shared_ptr<const P>>(v.begin(), v.end()) == wl, "leaves of a class: ", v.size());
        }
      }
      for (const auto &[p, s] : t.leaves)
        if constexpr (requires { p->get_status(); }) vf::check(p->get_status() == s, "class of a leaf");
    });
  }
}
}// namespace
void run()
{
  trees<2>({ 2, 1 }, true);
  trees<2>({ 1, 3 }, true);
  trees<2>({ 2, 2 }, true);
  trees<2>({ 3, 2 }, vf::thorough);
  trees<3>({ 1, 2, 1 }, true);
  trees<3>({ 1, 1, 3 }, true);
  trees<3>({ 2, 1, 2 }, true);
  if (vf::thorough) trees<3>({ 2, 2, 2 }, false);
  two();
  three();
}
