// Stand-in for algoim's booluarray.hpp: E^N booleans.
#ifndef VERIF_ALGOIM_BOOLUARRAY_HPP
#define VERIF_ALGOIM_BOOLUARRAY_HPP
#include "uvector.hpp"
namespace algoim {
template<int N, int E> class booluarray
{
  static constexpr int size_ = [] {
    int s = 1;
    for (int i = 0; i < N; ++i) s *= E;
    return s;
  }();
  std::vector<bool> b_;

public:
  booluarray() : b_(size_, false) {}
  explicit booluarray(bool v) : b_(size_, v) {}
  static int furl(const uvector<int, N> &i)
  {
    int k = 0;
    for (int d = 0; d < N; ++d) k = k * E + i(d);
    return k;
  }
  static uvector<int, N> unfurl(int f)
  {
    uvector<int, N> i;
    for (int d = N - 1; d >= 0; --d) {
      i(d) = f % E;
      f /= E;
    }
    return i;
  }
  static constexpr int count() { return size_; }
  bool operator()(const uvector<int, N> &i) const { return b_[furl(i)]; }
  [[nodiscard]] bool get(int f) const { return b_[f]; }
  void set(int f, bool v) { b_[f] = v; }
};
}// namespace algoim
#endif
