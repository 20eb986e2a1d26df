// Stand-in for algoim's gaussquad.hpp: Gauss-Legendre on [0,1] by Newton.
#ifndef VERIF_ALGOIM_GAUSSQUAD_HPP
#define VERIF_ALGOIM_GAUSSQUAD_HPP
#include <map>
#include "uvector.hpp"
namespace algoim {
struct GaussQuad
{
  static const std::pair<std::vector<real>, std::vector<real>> &rule(int p)
  {
    static thread_local std::map<int, std::pair<std::vector<real>, std::vector<real>>> cache;
    auto it = cache.find(p);
    if (it != cache.end()) return it->second;
    std::vector<real> x(p), w(p);
    for (int i = 0; i < p; ++i) {
      long double z = std::cos(3.14159265358979323846L * (i + 0.75L) / (p + 0.5L));
      long double dp = 1;
      for (int k = 0; k < 100; ++k) {
        long double p0 = 1, p1 = z;
        for (int j = 2; j <= p; ++j) {
          const long double p2 = ((2 * j - 1) * z * p1 - (j - 1) * p0) / j;
          p0 = p1;
          p1 = p2;
        }
        if (p == 1) p0 = 1;
        dp = p * (z * p1 - p0) / (z * z - 1);
        const long double dz = p1 / dp;
        z -= dz;
        if (std::abs(static_cast<double>(dz)) < 1e-18) break;
      }
      x[p - 1 - i] = static_cast<real>((z + 1) / 2);
      w[p - 1 - i] = static_cast<real>(1 / ((1 - z * z) * dp * dp));
    }
    return cache.emplace(p, std::make_pair(x, w)).first->second;
  }
  static real x(int p, int i) { return rule(p).first[i]; }
  static real w(int p, int i) { return rule(p).second[i]; }
};
}// namespace algoim
#endif
