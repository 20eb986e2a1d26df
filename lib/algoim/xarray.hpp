// Stand-in for algoim's xarray.hpp: a view on a row-major N-d array
// (the last index runs fastest), with algoim's flat Range helpers.
#ifndef VERIF_ALGOIM_XARRAY_HPP
#define VERIF_ALGOIM_XARRAY_HPP
#include <cstdlib>
#include <memory>
#include "uvector.hpp"
namespace algoim {
template<typename T, int N> class xarray
{
  T *data_;
  uvector<int, N> ext_;

public:
  xarray(T *data, const uvector<int, N> &ext) : data_(data), ext_(ext) {}
  xarray(const xarray &o) = default;
  const T *data() const { return data_; }
  T *data() { return data_; }
  const uvector<int, N> &ext() const { return ext_; }
  int ext(int i) const { return ext_(i); }
  int size() const { return prod(ext_); }
  int furl(const uvector<int, N> &i) const
  {
    int k = 0;
    for (int d = 0; d < N; ++d) {
      assert(0 <= i(d) && i(d) < ext_(d));
      k = k * ext_(d) + i(d);
    }
    return k;
  }
  const T &operator[](int i) const { return data_[i]; }
  T &operator[](int i) { return data_[i]; }
  const T &m(const uvector<int, N> &i) const { return data_[furl(i)]; }
  T &m(const uvector<int, N> &i) { return data_[furl(i)]; }
  void alterExtent(const uvector<int, N> &e) { ext_ = e; }
  // Not part of algoim: rebinding used only inside the stand-in.
  void rebind(T *d, const uvector<int, N> &e)
  {
    data_ = d;
    ext_ = e;
  }
};

// algoim allocates short-lived arrays from a thread-local stack; here a
// thread-local arena that is never shrunk below what is in use.
namespace vdetail {
  struct SparkArena
  {
    std::vector<std::unique_ptr<unsigned char[]>> blocks;
  };
  template<typename T> struct SparkHolder
  {
    std::vector<std::unique_ptr<T[]>> held;
    void one(T **p, std::size_t n)
    {
      held.emplace_back(new T[n + 1]());
      *p = held.back().get();
    }
    template<typename... R> explicit SparkHolder(R... r) { go(r...); }
    void go() {}
    template<typename L, typename... R> void go(T **p, L n, R... r)
    {
      one(p, static_cast<std::size_t>(n < 0 ? 0 : n));
      go(r...);
    }
  };
}// namespace vdetail
#define VERIF_CAT2(a, b) a##b
#define VERIF_CAT(a, b) VERIF_CAT2(a, b)
}// namespace algoim
// Used by qugar as `alg::algoim_spark_alloc(real, &p, n, ...)`: algoim's macro
// expands to a declaration in namespace algoim.
#define algoim_spark_alloc(T, ...) \
  vdetail::SparkHolder<T> VERIF_CAT(spark_holder_, __LINE__) { __VA_ARGS__ }
#endif
