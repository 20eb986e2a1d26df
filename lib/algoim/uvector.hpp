// Stand-in for algoim's uvector.hpp (algoim itself is not available offline).
// Written for /verif from algoim's documented interface; not algoim's source.
#ifndef VERIF_ALGOIM_UVECTOR_HPP
#define VERIF_ALGOIM_UVECTOR_HPP
#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <functional>
#include <ostream>
#include <type_traits>
#include <utility>
#include <vector>

#ifndef ALGOIM_M
#define ALGOIM_M 8
#endif

namespace algoim {
using real = double;

template<typename T, int N> class uvector
{
  T data_[N > 0 ? N : 1]{};

public:
  uvector() = default;
  template<typename S>
    requires(std::is_convertible_v<S, T>)
  uvector(const S &val)// NOLINT
  {
    for (int i = 0; i < N; ++i) data_[i] = static_cast<T>(val);
  }
  template<typename... A>
    requires(sizeof...(A) + 2 == static_cast<std::size_t>(N))
  uvector(const T &a0, const T &a1, const A &...args) : data_{ a0, a1, static_cast<T>(args)... }
  {}
  template<typename S>
    requires(!std::is_same_v<S, T> && std::is_convertible_v<S, T>)
  uvector(const uvector<S, N> &o)// NOLINT
  {
    for (int i = 0; i < N; ++i) data_[i] = static_cast<T>(o(i));
  }
  const T &operator()(int i) const
  {
    assert(0 <= i && i < N);
    return data_[i];
  }
  T &operator()(int i)
  {
    assert(0 <= i && i < N);
    return data_[i];
  }
  const T *data() const { return data_; }
  T *data() { return data_; }

#define VERIF_OPEQ(op)                                                        \
  template<typename S>                                                        \
    requires(std::is_convertible_v<S, T>)                                     \
  uvector &operator op(const S &v)                                            \
  {                                                                           \
    for (int i = 0; i < N; ++i) data_[i] op v;                                \
    return *this;                                                             \
  }                                                                           \
  template<typename S> uvector &operator op(const uvector<S, N> &v)           \
  {                                                                           \
    for (int i = 0; i < N; ++i) data_[i] op v(i);                             \
    return *this;                                                             \
  }
  VERIF_OPEQ(+=)
  VERIF_OPEQ(-=)
  VERIF_OPEQ(*=)
  VERIF_OPEQ(/=)
#undef VERIF_OPEQ
};

namespace vdetail {
  template<typename T> struct is_uvec : std::false_type
  {};
  template<typename T, int N> struct is_uvec<uvector<T, N>> : std::true_type
  {};
  template<typename T, typename = void> struct derived_uvec : std::false_type
  {};
  template<typename T, int N> std::true_type duv_test(const uvector<T, N> *);
  std::false_type duv_test(...);
  template<typename T> constexpr bool is_vec = decltype(duv_test(static_cast<std::remove_cvref_t<T> *>(nullptr)))::value;
}// namespace vdetail

#define VERIF_OP(op)                                                                              \
  template<typename A, typename B, int N>                                                         \
  auto operator op(const uvector<A, N> &a, const uvector<B, N> &b)                                \
  {                                                                                               \
    uvector<std::remove_cvref_t<decltype(a(0) op b(0))>, N> r;                                    \
    for (int i = 0; i < N; ++i) r(i) = a(i) op b(i);                                              \
    return r;                                                                                     \
  }                                                                                               \
  template<typename A, typename B, int N>                                                         \
    requires(!vdetail::is_vec<B>)                                                                 \
  auto operator op(const uvector<A, N> &a, const B &b)                                            \
  {                                                                                               \
    uvector<std::remove_cvref_t<decltype(a(0) op b)>, N> r;                                       \
    for (int i = 0; i < N; ++i) r(i) = a(i) op b;                                                 \
    return r;                                                                                     \
  }                                                                                               \
  template<typename A, typename B, int N>                                                         \
    requires(!vdetail::is_vec<B>)                                                                 \
  auto operator op(const B &b, const uvector<A, N> &a)                                            \
  {                                                                                               \
    uvector<std::remove_cvref_t<decltype(b op a(0))>, N> r;                                       \
    for (int i = 0; i < N; ++i) r(i) = b op a(i);                                                 \
    return r;                                                                                     \
  }
VERIF_OP(+)
VERIF_OP(-)
VERIF_OP(*)
VERIF_OP(/)
VERIF_OP(==)
VERIF_OP(!=)
VERIF_OP(<)
VERIF_OP(<=)
VERIF_OP(>)
VERIF_OP(>=)
VERIF_OP(&&)
VERIF_OP(||)
#undef VERIF_OP

template<typename T, int N> uvector<T, N> operator-(const uvector<T, N> &a)
{
  uvector<T, N> r;
  for (int i = 0; i < N; ++i) r(i) = -a(i);
  return r;
}
template<int N> uvector<bool, N> operator!(const uvector<bool, N> &a)
{
  uvector<bool, N> r;
  for (int i = 0; i < N; ++i) r(i) = !a(i);
  return r;
}
template<typename T, int N> uvector<T, N> abs(const uvector<T, N> &a)
{
  using std::abs;
  uvector<T, N> r;
  for (int i = 0; i < N; ++i) r(i) = abs(a(i));
  return r;
}
template<typename T, int N> T sqrnorm(const uvector<T, N> &a)
{
  T s = a(0) * a(0);
  for (int i = 1; i < N; ++i) s += a(i) * a(i);
  return s;
}
template<typename T, int N> T norm(const uvector<T, N> &a)
{
  using std::sqrt;
  return sqrt(sqrnorm(a));
}
template<typename A, typename B, int N> auto dot(const uvector<A, N> &a, const uvector<B, N> &b)
{
  std::remove_cvref_t<decltype(a(0) * b(0))> s = a(0) * b(0);
  for (int i = 1; i < N; ++i) s += a(i) * b(i);
  return s;
}
template<typename T, int N> T prod(const uvector<T, N> &a)
{
  T s = a(0);
  for (int i = 1; i < N; ++i) s *= a(i);
  return s;
}
template<typename T, int N> T sum(const uvector<T, N> &a)
{
  T s = a(0);
  for (int i = 1; i < N; ++i) s += a(i);
  return s;
}
template<typename T, int N> T max(const uvector<T, N> &a)
{
  T s = a(0);
  for (int i = 1; i < N; ++i) s = a(i) > s ? a(i) : s;
  return s;
}
template<typename T, int N> T min(const uvector<T, N> &a)
{
  T s = a(0);
  for (int i = 1; i < N; ++i) s = a(i) < s ? a(i) : s;
  return s;
}
template<typename T, int N> int argmax(const uvector<T, N> &a)
{
  int k = 0;
  for (int i = 1; i < N; ++i)
    if (a(i) > a(k)) k = i;
  return k;
}
template<typename T, int N> int argmin(const uvector<T, N> &a)
{
  int k = 0;
  for (int i = 1; i < N; ++i)
    if (a(i) < a(k)) k = i;
  return k;
}
template<int N> bool all(const uvector<bool, N> &a)
{
  for (int i = 0; i < N; ++i)
    if (!a(i)) return false;
  return true;
}
template<int N> bool any(const uvector<bool, N> &a)
{
  for (int i = 0; i < N; ++i)
    if (a(i)) return true;
  return false;
}
template<typename T, int N> uvector<T, N> set_component(uvector<T, N> a, int axis, const T &val)
{
  a(axis) = val;
  return a;
}
template<typename T, int N> uvector<T, N> inc_component(uvector<T, N> a, int axis, const T &val)
{
  a(axis) += val;
  return a;
}
template<typename T, int N> uvector<T, N - 1> remove_component(const uvector<T, N> &a, int axis)
{
  assert(0 <= axis && axis < N);
  uvector<T, N - 1> r;
  for (int i = 0, k = 0; i < N; ++i)
    if (i != axis) r(k++) = a(i);
  return r;
}
template<typename T, int N> uvector<T, N + 1> add_component(const uvector<T, N> &a, int axis, const T &val)
{
  assert(0 <= axis && axis <= N);
  uvector<T, N + 1> r;
  for (int i = 0, k = 0; i < N + 1; ++i) r(i) = i == axis ? val : a(k++);
  return r;
}
template<typename T, int N> std::ostream &operator<<(std::ostream &o, const uvector<T, N> &a)
{
  o << "(";
  for (int i = 0; i < N; ++i) o << (i ? "," : "") << a(i);
  return o << ")";
}
}// namespace algoim
#endif
