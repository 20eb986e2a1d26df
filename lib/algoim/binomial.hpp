// Stand-in for algoim's binomial.hpp
#ifndef VERIF_ALGOIM_BINOMIAL_HPP
#define VERIF_ALGOIM_BINOMIAL_HPP
#include <mutex>
#include "uvector.hpp"
namespace algoim {
struct Binomial
{
  // Row n of Pascal's triangle: C(n,0), ..., C(n,n).
  static const real *row(int n)
  {
    static constexpr int max_n = 256;
    static const auto table = [] {
      std::vector<std::vector<real>> t(max_n + 1);
      for (int i = 0; i <= max_n; ++i) {
        t[i].assign(static_cast<std::size_t>(i) + 1, 1.0);
        for (int j = 1; j < i; ++j) t[i][j] = t[i - 1][j - 1] + t[i - 1][j];
      }
      return t;
    }();
    assert(0 <= n && n <= max_n);
    return table[static_cast<std::size_t>(n)].data();
  }
  static real c(int n, int k) { return row(n)[k]; }
};
}// namespace algoim
#endif
