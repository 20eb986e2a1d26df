// A stand-in of nanobind (not available here) with the part of its interface and of its semantics that wrappers of numerical
// libraries use: classes with single inheritance, overloaded functions (first without, then with implicit conversions), keyword and
// default arguments, policies of returned values, arrays, shared pointers, arrays, vectors, optionals, tuples and enumerations.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define PY_ARRAY_UNIQUE_SYMBOL nb_stand_in_numpy
#ifndef NB_STAND_IN_MODULE
#define NO_IMPORT_ARRAY
#endif
#include <numpy/arrayobject.h>
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>
namespace nanobind {
enum class rv_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal, none };
struct python_error : std::exception
{
  const char *what() const noexcept override { return "Python error"; }
};
using error_already_set = python_error;
struct next_overload : std::runtime_error
{
  next_overload() : std::runtime_error("next") {}
};
struct cast_error : std::runtime_error
{
  cast_error() : std::runtime_error("bad cast") {}
};
struct type_error : std::runtime_error
{
  using std::runtime_error::runtime_error;
};
struct value_error : std::runtime_error
{
  using std::runtime_error::runtime_error;
};
struct index_error : std::out_of_range
{
  using std::out_of_range::out_of_range;
};
// ---- handles
class handle
{
public:
  handle() = default;
  handle(PyObject *p) : p_(p) {}
  PyObject *ptr() const { return p_; }
  bool is_none() const { return p_ == Py_None; }
  bool is_valid() const { return p_ != nullptr; }
  explicit operator bool() const { return p_ != nullptr; }
  const handle &inc_ref() const
  {
    Py_XINCREF(p_);
    return *this;
  }
  const handle &dec_ref() const
  {
    Py_XDECREF(p_);
    return *this;
  }
  bool is(handle o) const { return p_ == o.p_; }

protected:
  PyObject *p_ = nullptr;
};
class object : public handle
{
public:
  object() = default;
  object(const object &o) : handle(o.p_) { Py_XINCREF(p_); }
  object(object &&o) noexcept : handle(o.p_) { o.p_ = nullptr; }
  object &operator=(object o) noexcept
  {
    std::swap(p_, o.p_);
    return *this;
  }
  ~object() { Py_XDECREF(p_); }
  handle release()
  {
    handle h(p_);
    p_ = nullptr;
    return h;
  }
  static object steal(PyObject *p)
  {
    object o;
    o.p_ = p;
    return o;
  }
  static object borrow(PyObject *p)
  {
    Py_XINCREF(p);
    return steal(p);
  }
};
template<typename T = object> T steal(handle h)
{
  T t;
  static_cast<object &>(t) = object::steal(h.ptr());
  return t;
}
template<typename T = object> T borrow(handle h)
{
  h.inc_ref();
  return steal<T>(h);
}
inline object checked(PyObject *p)
{
  if (!p) throw python_error();
  return object::steal(p);
}
struct tuple : object
{
  tuple() = default;
  explicit tuple(object o) : object(std::move(o)) {}
};
struct list : object
{
  list() : object(object::steal(PyList_New(0))) {}
  template<typename T> void append(T &&v);
  std::size_t size() const { return PyList_GET_SIZE(p_); }
};
struct dict : object
{
  dict() : object(object::steal(PyDict_New())) {}
};
struct str : object
{
  explicit str(const char *s) : object(object::steal(PyUnicode_FromString(s))) {}
};
inline object none() { return object::borrow(Py_None); }
struct capsule : object
{
  capsule(void *p, void (*del)(void *) noexcept)
  {
    p_ = PyCapsule_New(p, nullptr, [](PyObject *c) {
      auto d = (void (*)(void *))PyCapsule_GetContext(c);
      if (d) d(PyCapsule_GetPointer(c, nullptr));
    });
    PyCapsule_SetContext(p_, (void *)del);
  }
};
// ---- annotations
struct arg_v;
struct arg
{
  explicit constexpr arg(const char *n = nullptr) : name(n) {}
  template<typename T> arg_v operator=(T &&v) const;
  arg noconvert(bool v = true) const
  {
    arg a = *this;
    a.convert = !v;
    return a;
  }
  arg none(bool v = true) const
  {
    arg a = *this;
    a.accepts_none = v;
    return a;
  }
  const char *name;
  bool convert = true, accepts_none = false;
};
struct arg_v : arg
{
  arg_v(const arg &a, object v) : arg(a), value(std::move(v)) {}
  object value;
};
inline arg operator""_a(const char *n, std::size_t) { return arg(n); }
namespace literals {
  using nanobind::operator""_a;
}
template<int... I> struct call_guard
{};
template<std::size_t A, std::size_t B> struct keep_alive
{};
struct kw_only
{};
struct is_method
{};
struct scope
{};
struct sig
{
  const char *v;
};
struct dynamic_attr
{};
struct is_final
{};
struct is_arithmetic
{};
struct gil_scoped_release
{};
// ---- registry of classes
namespace detail {
  struct Instance
  {
    PyObject_HEAD void *p;
    std::shared_ptr<void> *hold;
    PyObject *parent;
  };
  struct Type
  {
    PyTypeObject *py = nullptr;
    std::type_index base = typeid(void);
    void *(*up)(void *) = nullptr;
  };
  using Types = std::unordered_map<std::type_index, Type>;
  Types &types();
  using ByPy = std::unordered_map<PyTypeObject *, std::type_index>;
  ByPy &by_py();
  PyObject *new_class(const char *name, const char *doc, PyObject *scope, PyTypeObject *base);
  // the pointer of the given type in an object, or nullptr
  inline void *pointer_of(PyObject *o, std::type_index want)
  {
    std::optional<std::type_index> t;
    for (PyTypeObject *q = Py_TYPE(o); q; q = q->tp_base) {
      auto it = by_py().find(q);
      if (it != by_py().end()) {
        t = it->second;
        break;
      }
    }
    if (!t) return nullptr;
    void *p = ((Instance *)o)->p;
    while (*t != want) {
      const auto &ty = types().at(*t);
      if (!ty.up) return nullptr;
      p = ty.up(p);
      t = ty.base;
    }
    return p;
  }
  struct Cleanup
  {
    std::vector<object> temps;
    PyObject *self = nullptr;
  };
  struct PyHold
  {
    PyObject *o;
    void operator()(const void *) const
    {
      const auto s = PyGILState_Ensure();
      Py_DECREF(o);
      PyGILState_Release(s);
    }
  };
  template<typename T, typename = void> struct caster;
  template<typename T> using Caster = caster<std::remove_cv_t<std::remove_reference_t<T>>>;
  inline PyObject *make_instance(PyTypeObject *t, void *p, std::shared_ptr<void> *hold, PyObject *parent)
  {
    auto *o = (Instance *)t->tp_alloc(t, 0);
    o->p = p;
    o->hold = hold;
    o->parent = parent;
    Py_XINCREF(parent);
    return (PyObject *)o;
  }
  template<typename T> std::pair<const Type *, void *> dynamic(const T *p)
  {
    if constexpr (std::is_polymorphic_v<T>) {
      auto it = types().find(typeid(*p));
      if (it != types().end()) return { &it->second, const_cast<void *>(dynamic_cast<const void *>(p)) };
    }
    auto it = types().find(typeid(T));
    if (it == types().end()) {
      PyErr_Format(PyExc_TypeError, "class %s is not registered", typeid(T).name());
      throw python_error();
    }
    return { &it->second, const_cast<void *>((const void *)p) };
  }
  // ---- classes
  template<typename T, typename> struct caster
  {
    T *v = nullptr;
    bool load(PyObject *o, bool, Cleanup &) { return (v = (T *)pointer_of(o, typeid(T))) != nullptr; }
    template<typename A> A get()
    {
      if constexpr (std::is_pointer_v<std::remove_reference_t<A>>)
        return v;
      else
        return static_cast<A>(*v);
    }
    template<typename U> static PyObject *cast(U &&u, rv_policy pol, Cleanup *c)
    {
      using B = std::remove_reference_t<U>;
      if constexpr (std::is_pointer_v<B>) {
        if (!u) return Py_NewRef(Py_None);
        if (pol == rv_policy::automatic || pol == rv_policy::take_ownership) {
          auto [t, p] = dynamic(u);
          return make_instance(t->py, p, new std::shared_ptr<void>(std::shared_ptr<const T>(u), p), nullptr);
        }
        return cast(*u, pol == rv_policy::automatic_reference ? rv_policy::reference : pol, c);
      } else if constexpr (std::is_lvalue_reference_v<U &&>) {
        if (pol == rv_policy::reference || pol == rv_policy::reference_internal) {
          auto [t, p] = dynamic(&u);
          return make_instance(t->py, p, nullptr, pol == rv_policy::reference_internal && c ? c->self : nullptr);
        }
        auto s = std::make_shared<T>(u);
        return make_instance(types().at(typeid(T)).py, s.get(), new std::shared_ptr<void>(s), nullptr);
      } else {
        auto s = std::make_shared<T>(std::move(u));
        auto [t, p] = dynamic(s.get());
        return make_instance(t->py, p, new std::shared_ptr<void>(s), nullptr);
      }
    }
  };
  template<typename T> struct caster<T *, void> : caster<std::remove_cv_t<T>, void>
  {};
  template<typename T> struct caster<std::shared_ptr<T>, void>
  {
    std::shared_ptr<T> v;
    bool load(PyObject *o, bool, Cleanup &)
    {
      auto *p = (T *)pointer_of(o, typeid(T));
      if (!p) return false;
      v = std::shared_ptr<T>(p, PyHold{ Py_NewRef(o) });
      return true;
    }
    template<typename A> A get() { return static_cast<A>(v); }
    static PyObject *cast(const std::shared_ptr<T> &s, rv_policy, Cleanup *)
    {
      if (!s) return Py_NewRef(Py_None);
      if (auto *h = std::get_deleter<PyHold>(s)) return Py_NewRef(h->o);
      using M = std::remove_const_t<T>;
      auto [t, p] = dynamic<M>(s.get());
      auto m = std::const_pointer_cast<M>(s);
      return make_instance(t->py, p, new std::shared_ptr<void>(m, p), nullptr);
    }
  };
  // ---- scalars
  template<> struct caster<bool, void>
  {
    bool v = false;
    bool load(PyObject *o, bool, Cleanup &)
    {
      if (o != Py_True && o != Py_False) return false;
      v = o == Py_True;
      return true;
    }
    template<typename A> A get() { return static_cast<A>(v); }
    static PyObject *cast(bool b, rv_policy, Cleanup *) { return PyBool_FromLong(b); }
  };
  template<typename T> struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
  {
    T v = 0;
    bool load(PyObject *o, bool convert, Cleanup &)
    {
      object n;
      if (PyLong_Check(o))
        n = object::borrow(o);
      else if (!convert || PyFloat_Check(o))
        return false;
      else {
        n = object::steal(PyNumber_Index(o));
        if (!n) n = (PyErr_Clear(), object::steal(PyObject_HasAttrString(o, "__int__") ? PyNumber_Long(o) : nullptr));
        if (!n) return PyErr_Clear(), false;
      }
      if constexpr (std::is_signed_v<T>) {
        const long long x = PyLong_AsLongLong(n.ptr());
        if (x == -1 && PyErr_Occurred()) return PyErr_Clear(), false;
        v = (T)x;
        return (long long)v == x;
      } else {
        const unsigned long long x = PyLong_AsUnsignedLongLong(n.ptr());
        if (x == (unsigned long long)-1 && PyErr_Occurred()) return PyErr_Clear(), false;
        v = (T)x;
        return (unsigned long long)v == x;
      }
    }
    template<typename A> A get() { return static_cast<A>(v); }
    static PyObject *cast(T x, rv_policy, Cleanup *) { return std::is_signed_v<T> ? PyLong_FromLongLong((long long)x) : PyLong_FromUnsignedLongLong((unsigned long long)x); }
  };
  template<typename T> struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>>
  {
    T v = 0;
    bool load(PyObject *o, bool convert, Cleanup &)
    {
      if (!convert && !PyFloat_CheckExact(o)) return false;
      const double x = PyFloat_AsDouble(o);
      if (x == -1.0 && PyErr_Occurred()) return PyErr_Clear(), false;
      v = (T)x;
      return true;
    }
    template<typename A> A get() { return static_cast<A>(v); }
    static PyObject *cast(T x, rv_policy, Cleanup *) { return PyFloat_FromDouble((double)x); }
  };
  template<> struct caster<std::string, void>
  {
    std::string v;
    bool load(PyObject *o, bool, Cleanup &)
    {
      const char *s = PyUnicode_Check(o) ? PyUnicode_AsUTF8(o) : nullptr;
      if (!s) return PyErr_Clear(), false;
      v = s;
      return true;
    }
    template<typename A> A get() { return static_cast<A>(v); }
    static PyObject *cast(const std::string &s, rv_policy, Cleanup *) { return PyUnicode_FromStringAndSize(s.data(), (Py_ssize_t)s.size()); }
  };
  template<> struct caster<const char *, void>
  {
    static PyObject *cast(const char *s, rv_policy, Cleanup *) { return PyUnicode_FromString(s); }
  };
  template<std::size_t N> struct caster<char[N], void> : caster<const char *, void>
  {};
  // ---- objects
  template<typename T> struct caster<T, std::enable_if_t<std::is_base_of_v<handle, T>>>
  {
    T v;
    bool load(PyObject *o, bool, Cleanup &)
    {
      if constexpr (std::is_same_v<T, tuple>)
        if (!PyTuple_Check(o)) return false;
      if constexpr (std::is_same_v<T, list>)
        if (!PyList_Check(o)) return false;
      if constexpr (std::is_base_of_v<object, T>)
        v = borrow<T>(o);
      else
        v = o;
      return true;
    }
    template<typename A> A get() { return static_cast<A>(v); }
    static PyObject *cast(const handle &h, rv_policy, Cleanup *) { return Py_XNewRef(h.ptr()); }
  };
  // ---- containers
  inline object fast_sequence(PyObject *o)
  {
    if (PyUnicode_Check(o) || PyBytes_Check(o) || !PySequence_Check(o)) return {};
    object s = object::steal(PySequence_Fast(o, ""));
    if (!s) PyErr_Clear();
    return s;
  }
  template<typename T> bool load_item(PyObject *o, bool convert, Cleanup &c, T &out)
  {
    Caster<T> k;
    if (!k.load(o, convert, c)) return false;
    out = k.template get<T>();
    return true;
  }
  template<typename T, std::size_t N> struct caster<std::array<T, N>, void>
  {
    std::array<T, N> v{};
    bool load(PyObject *o, bool convert, Cleanup &c)
    {
      const object s = fast_sequence(o);
      if (!s || PySequence_Fast_GET_SIZE(s.ptr()) != (Py_ssize_t)N) return false;
      for (std::size_t i = 0; i < N; ++i)
        if (!load_item<T>(PySequence_Fast_GET_ITEM(s.ptr(), (Py_ssize_t)i), convert, c, v[i])) return false;
      c.temps.push_back(s);
      return true;
    }
    template<typename A> A get() { return static_cast<A>(v); }
    template<typename U> static PyObject *cast(U &&a, rv_policy pol, Cleanup *c)
    {
      object l = checked(PyList_New((Py_ssize_t)N));
      for (std::size_t i = 0; i < N; ++i) PyList_SET_ITEM(l.ptr(), (Py_ssize_t)i, checked(Caster<T>::cast(a[i], pol, c)).release().ptr());
      return l.release().ptr();
    }
  };
  template<typename T> struct caster<std::vector<T>, void>
  {
    std::vector<T> v;
    bool load(PyObject *o, bool convert, Cleanup &c)
    {
      const object s = fast_sequence(o);
      if (!s) return false;
      v.clear();
      for (Py_ssize_t i = 0; i < PySequence_Fast_GET_SIZE(s.ptr()); ++i) {
        T x{};
        if (!load_item<T>(PySequence_Fast_GET_ITEM(s.ptr(), i), convert, c, x)) return false;
        v.push_back(x);
      }
      c.temps.push_back(s);
      return true;
    }
    template<typename A> A get() { return static_cast<A>(v); }
    template<typename U> static PyObject *cast(U &&a, rv_policy pol, Cleanup *c)
    {
      object l = checked(PyList_New((Py_ssize_t)a.size()));
      Py_ssize_t i = 0;
      for (const auto &x : a) PyList_SET_ITEM(l.ptr(), i++, checked(Caster<T>::cast(T(x), pol, c)).release().ptr());
      return l.release().ptr();
    }
  };
  template<typename T> struct caster<std::optional<T>, void>
  {
    std::optional<T> v;
    bool load(PyObject *o, bool convert, Cleanup &c)
    {
      if (o == Py_None) return v.reset(), true;
      Caster<T> k;
      if (!k.load(o, convert, c)) return false;
      v = k.template get<T>();
      return true;
    }
    template<typename A> A get() { return static_cast<A>(v); }
    template<typename U> static PyObject *cast(U &&a, rv_policy pol, Cleanup *c) { return a ? Caster<T>::cast(*a, pol, c) : Py_NewRef(Py_None); }
  };
  template<typename... T> struct caster<std::tuple<T...>, void>
  {
    template<typename U> static PyObject *cast(U &&a, rv_policy pol, Cleanup *c)
    {
      object l = checked(PyTuple_New(sizeof...(T)));
      std::apply([&](const auto &...x) {
        Py_ssize_t i = 0;
        (PyTuple_SET_ITEM(l.ptr(), i++, checked(Caster<decltype(x)>::cast(std::remove_cvref_t<decltype(x)>(x), pol, c)).release().ptr()), ...);
      }, a);
      return l.release().ptr();
    }
  };
  template<typename A, typename B> struct caster<std::pair<A, B>, void>
  {
    template<typename U> static PyObject *cast(U &&a, rv_policy pol, Cleanup *c) { return caster<std::tuple<A, B>>::cast(std::tuple<A, B>(a.first, a.second), pol, c); }
  };
}// namespace detail
template<typename T> object cast(T &&v, rv_policy pol = rv_policy::automatic_reference, handle parent = {})
{
  detail::Cleanup c;
  c.self = parent.ptr();
  return checked(detail::Caster<T>::cast(std::forward<T>(v), pol, &c));
}
template<typename T> T cast(handle h)
{
  detail::Caster<T> k;
  detail::Cleanup c;
  if (!k.load(h.ptr(), true, c)) throw cast_error();
  return k.template get<T>();
}
template<typename... T> tuple make_tuple(T &&...v)
{
  object t = checked(PyTuple_New(sizeof...(T)));
  Py_ssize_t i = 0;
  (PyTuple_SET_ITEM(t.ptr(), i++, cast(std::forward<T>(v), rv_policy::automatic).release().ptr()), ...);
  return tuple(std::move(t));
}
template<typename T> void list::append(T &&v)
{
  object o = nanobind::cast(std::forward<T>(v));
  PyList_Append(p_, o.ptr());
}
template<typename T> arg_v arg::operator=(T &&v) const { return arg_v(*this, nanobind::cast(std::forward<T>(v))); }
// ---- arrays
struct numpy
{};
struct pytorch
{};
struct ro
{};
struct c_contig
{};
struct f_contig
{};
struct any_contig
{};
template<long long... I> struct shape
{
  static constexpr std::array<long long, sizeof...(I)> v{ I... };
};
template<long long N> using ndim = shape<N>;
namespace device {
  struct cpu
  {};
}// namespace device
template<typename T> constexpr int npy_of()
{
  if constexpr (std::is_same_v<T, bool>)
    return NPY_BOOL;
  else if constexpr (std::is_floating_point_v<T>)
    return sizeof(T) == 4 ? NPY_FLOAT32 : NPY_FLOAT64;
  else if constexpr (std::is_signed_v<T>)
    return sizeof(T) == 8 ? NPY_INT64 : sizeof(T) == 4 ? NPY_INT32 : sizeof(T) == 2 ? NPY_INT16 : NPY_INT8;
  else
    return sizeof(T) == 8 ? NPY_UINT64 : sizeof(T) == 4 ? NPY_UINT32 : sizeof(T) == 2 ? NPY_UINT16 : NPY_UINT8;
}
template<typename T> struct is_shape : std::false_type
{};
template<long long... I> struct is_shape<shape<I...>> : std::true_type
{};
namespace detail {
  template<typename... O> struct opts
  {
    using scalar = void;
    static constexpr bool has_shape = false, contig = false, readonly = false;
    static constexpr std::array<long long, 0> shp{};
  };
  template<typename O, typename... R> struct opts<O, R...> : opts<R...>
  {
  private:
    using Base = opts<R...>;

  public:
    static constexpr bool is_scalar = std::is_arithmetic_v<std::remove_const_t<O>>;
    using scalar = std::conditional_t<is_scalar, O, typename Base::scalar>;
    static constexpr bool readonly = (is_scalar && std::is_const_v<O>) || std::is_same_v<O, ro> || Base::readonly;
    static constexpr bool has_shape = is_shape<O>::value || Base::has_shape;
    static constexpr bool contig = std::is_same_v<O, c_contig> || Base::contig;
    static constexpr auto shp = [] {
      if constexpr (is_shape<O>::value)
        return O::v;
      else
        return Base::shp;
    }();
  };
}// namespace detail
template<typename... O> class ndarray
{
public:
  using Opts = detail::opts<O...>;
  using Scalar = typename Opts::scalar;
  ndarray() = default;
  using Data = std::conditional_t<std::is_const_v<Scalar>, const void *, void *>;
  ndarray(Data data, std::initializer_list<std::size_t> shp, handle owner = {}) : ndarray(data, shp.size(), shp.begin(), owner) {}
  ndarray(Data data, std::size_t nd, const std::size_t *shp, handle owner = {}) : p_((Scalar *)data), owner_(object::borrow(owner.ptr()))
  {
    long long st = 1;
    for (std::size_t i = 0; i < nd; ++i) shape_.push_back(shp[i]);
    strides_.resize(nd);
    for (std::size_t i = nd; i-- > 0;) {
      strides_[i] = st;
      st *= (long long)shape_[i];
    }
  }
  Scalar *data() const { return p_; }
  std::size_t ndim() const { return shape_.size(); }
  std::size_t shape(std::size_t i) const { return shape_[i]; }
  std::size_t size() const
  {
    std::size_t s = 1;
    for (auto n : shape_) s *= n;
    return shape_.empty() && !p_ ? 0 : s;
  }
  std::size_t nbytes() const { return size() * sizeof(Scalar); }
  long long stride(std::size_t i) const { return strides_[i]; }
  bool is_valid() const { return p_ != nullptr; }
  template<typename... I> Scalar &operator()(I... i) const
  {
    const std::array<long long, sizeof...(I)> id{ (long long)i... };
    if (id.size() != shape_.size()) throw std::out_of_range("indices of array");
    long long k = 0;
    for (std::size_t d = 0; d < id.size(); ++d) {
      if (id[d] < 0 || id[d] >= (long long)shape_[d]) throw std::out_of_range("index of array");
      k += id[d] * strides_[d];
    }
    return p_[k];
  }
  object cast(rv_policy pol = rv_policy::automatic_reference, handle parent = {}) const
  {
    detail::Cleanup c;
    c.self = parent.ptr();
    return checked(to_python(pol, &c));
  }
  bool from_python(PyObject *o, bool convert, detail::Cleanup &c)
  {
    if (!PyArray_Check(o)) return false;
    auto *a = (PyArrayObject *)o;
    const int want = npy_of<std::remove_const_t<Scalar>>();
    if (Opts::has_shape) {
      if (PyArray_NDIM(a) != (int)Opts::shp.size()) return false;
      for (std::size_t i = 0; i < Opts::shp.size(); ++i)
        if (Opts::shp[i] != -1 && Opts::shp[i] != PyArray_DIM(a, (int)i)) return false;
    }
    const bool same = PyArray_EquivTypenums(PyArray_TYPE(a), want) && PyArray_ISNOTSWAPPED(a);
    const bool order = !Opts::contig || PyArray_IS_C_CONTIGUOUS(a);
    if (!Opts::readonly && !PyArray_ISWRITEABLE(a)) return false;
    object hold = object::borrow(o);
    if (!same || !order) {
      if (!convert || PyArray_ISCOMPLEX(a)) return false;
      hold = object::steal(PyArray_FromAny(o, PyArray_DescrFromType(want), 0, 0, NPY_ARRAY_FORCECAST | NPY_ARRAY_ENSURECOPY | (Opts::contig ? NPY_ARRAY_C_CONTIGUOUS : 0), nullptr));
      if (!hold) return PyErr_Clear(), false;
      a = (PyArrayObject *)hold.ptr();
    }
    p_ = (Scalar *)PyArray_DATA(a);
    shape_.clear();
    strides_.clear();
    for (int i = 0; i < PyArray_NDIM(a); ++i) {
      shape_.push_back((std::size_t)PyArray_DIM(a, i));
      strides_.push_back(PyArray_STRIDE(a, i) / (long long)sizeof(Scalar));
    }
    owner_ = hold;
    self_ = hold;
    c.temps.push_back(hold);
    return true;
  }
  PyObject *to_python(rv_policy pol, detail::Cleanup *c) const
  {
    bool copy = false;
    object owner = owner_;
    if (self_ && pol != rv_policy::copy) return Py_NewRef(self_.ptr());
    switch (pol) {
    case rv_policy::reference_internal:
      if (c && c->self && !owner.is(c->self)) {
        if (owner) {
          PyErr_SetString(PyExc_RuntimeError, "reference_internal policy cannot be applied (the array already has an owner)");
          return nullptr;
        }
        owner = object::borrow(c->self);
      }
      break;
    case rv_policy::automatic:
    case rv_policy::automatic_reference: copy = !owner; break;
    case rv_policy::copy:
    case rv_policy::move: copy = true; break;
    default: break;
    }
    std::vector<npy_intp> dims(shape_.begin(), shape_.end()), st;
    for (auto s : strides_) st.push_back(s * (npy_intp)sizeof(Scalar));
    const int type = npy_of<std::remove_const_t<Scalar>>();
    if (!p_) return PyArray_ZEROS((int)dims.size(), dims.data(), type, 0);
    object a = checked(PyArray_New(&PyArray_Type, (int)dims.size(), dims.data(), type, st.data(), (void *)p_, 0, Opts::readonly ? 0 : NPY_ARRAY_WRITEABLE, nullptr));
    if (copy) {
      return PyArray_NewCopy((PyArrayObject *)a.ptr(), NPY_KEEPORDER);
    }
    if (owner) PyArray_SetBaseObject((PyArrayObject *)a.ptr(), owner.release().ptr());
    return a.release().ptr();
  }

private:
  Scalar *p_ = nullptr;
  std::vector<std::size_t> shape_;
  std::vector<long long> strides_;
  object owner_, self_;
};
namespace detail {
  template<typename... O> struct caster<ndarray<O...>, void>
  {
    ndarray<O...> v;
    bool load(PyObject *o, bool convert, Cleanup &c) { return v.from_python(o, convert, c); }
    template<typename A> A get() { return static_cast<A>(v); }
    static PyObject *cast(const ndarray<O...> &a, rv_policy pol, Cleanup *c) { return a.to_python(pol, c); }
  };
  // ---- functions
  struct Overload
  {
    std::function<PyObject *(PyObject *const *, bool, bool &)> call;
    std::size_t n = 0;
    std::vector<std::string> names;
    std::vector<object> defaults;
    std::vector<char> none_ok, convert;
    bool method = false;
  };
  PyObject *new_function(const char *name, PyObject *previous, Overload o);
  template<typename T> T &&pass(T &&t) { return std::forward<T>(t); }
  template<typename R, typename... A, typename F, std::size_t... I>
  Overload make_overload(F f, std::index_sequence<I...>, bool method, rv_policy pol, std::vector<std::tuple<const char *, object, bool, bool>> as)
  {
    Overload o;
    o.n = sizeof...(A);
    o.method = method;
    o.names.assign(o.n, "");
    o.defaults.assign(o.n, {});
    o.none_ok.assign(o.n, 0);
    o.convert.assign(o.n, 1);
    const std::size_t off = method && !as.empty() ? 1 : 0;
    if (!as.empty() && as.size() + off != o.n) throw std::logic_error("number of annotated arguments");
    for (std::size_t i = 0; i < as.size(); ++i) {
      auto &[n, d, no, cv] = as[i];
      o.names[i + off] = n ? n : "";
      o.defaults[i + off] = d;
      o.none_ok[i + off] = no || (d && d.is_none());
      o.convert[i + off] = cv;
    }
    std::vector<char> cv = o.convert;
    o.call = [f = std::move(f), method, pol, cv](PyObject *const *a, bool convert, bool &matched) -> PyObject * {
      std::tuple<Caster<A>...> k;
      Cleanup c;
      if (method) c.self = a[0];
      matched = (std::get<I>(k).load(a[I], convert && cv[I], c) && ...);
      if (!matched) return nullptr;
      if constexpr (std::is_void_v<R>) {
        f(std::get<I>(k).template get<A>()...);
        return Py_NewRef(Py_None);
      } else
        return Caster<R>::cast(f(std::get<I>(k).template get<A>()...), pol, &c);
    };
    return o;
  }
  struct Extra
  {
    std::vector<std::tuple<const char *, object, bool, bool>> args;
    rv_policy pol = rv_policy::automatic;
    void add(const arg_v &a) { args.emplace_back(a.name, a.value, a.accepts_none, a.convert); }
    void add(const arg &a) { args.emplace_back(a.name, object(), a.accepts_none, a.convert); }
    void add(rv_policy p) { pol = p; }
    template<typename T> void add(const T &) {}
  };
  template<typename F, typename = void> struct signature;
  template<typename R, typename... A> struct signature<R (*)(A...)>
  {
    template<typename F> static Overload make(F &&f, bool m, Extra e) { return make_overload<R, A...>(std::forward<F>(f), std::index_sequence_for<A...>(), m, e.pol, e.args); }
  };
  template<typename R, typename... A> struct signature<R (*)(A...) noexcept> : signature<R (*)(A...)>
  {};
  template<typename M> struct member;
#define NB_MEMBER(Q, C)                                                                                              \
  template<typename R, typename T, typename... A> struct member<R (T::*)(A...) Q>                                   \
  {                                                                                                                 \
    using lambda = signature<R (*)(A...)>;                                                                          \
    template<typename F> static Overload make(F f, bool m, Extra e)                                                 \
    {                                                                                                               \
      return signature<R (*)(C T &, A...)>::make([f](C T &t, A... a) -> R { return (t.*f)(static_cast<A>(a)...); }, m, std::move(e)); \
    }                                                                                                               \
  };
  NB_MEMBER(, )
  NB_MEMBER(const, const)
  NB_MEMBER(noexcept, )
  NB_MEMBER(const noexcept, const)
#undef NB_MEMBER
  template<typename F> Overload overload(F &&f, bool m, Extra e)
  {
    using D = std::decay_t<F>;
    if constexpr (std::is_member_function_pointer_v<D>)
      return member<D>::make(f, m, std::move(e));
    else if constexpr (std::is_pointer_v<D>)
      return signature<D>::make(f, m, std::move(e));
    else
      return member<decltype(&D::operator())>::lambda::make(std::forward<F>(f), m, std::move(e));
  }
  inline void add_function(PyObject *where, const char *name, Overload o)
  {
    object prev;
    if (PyObject *d = PyModule_Check(where) ? PyModule_GetDict(where) : ((PyTypeObject *)where)->tp_dict) {
      prev = object::borrow(PyDict_GetItemString(d, name));
    }
    object f = checked(new_function(name, prev.ptr(), std::move(o)));
    if (PyObject_SetAttrString(where, name, f.ptr())) throw python_error();
  }
}// namespace detail
struct accessor
{
  object o;
  std::string name;
  template<typename T> void operator=(T &&v)
  {
    object x = nanobind::cast(std::forward<T>(v));
    if (PyObject_SetAttrString(o.ptr(), name.c_str(), x.ptr())) throw python_error();
  }
};
class module_ : public object
{
public:
  module_() = default;
  explicit module_(object o) : object(std::move(o)) {}
  accessor attr(const char *n) { return accessor{ *this, n }; }
  accessor doc() { return accessor{ *this, "__doc__" }; }
  template<typename F, typename... E> module_ &def(const char *name, F &&f, const E &...e)
  {
    detail::Extra x;
    (x.add(e), ...);
    detail::add_function(p_, name, detail::overload(std::forward<F>(f), false, std::move(x)));
    return *this;
  }
};
template<typename T, typename... B> class class_ : public object
{
public:
  template<typename... E> class_(handle where, const char *name, const E &...e)
  {
    const char *doc = "";
    auto take = [&](const auto &x) {
      if constexpr (std::is_convertible_v<decltype(x), const char *>) doc = x;
    };
    (take(e), ...);
    detail::Type t;
    PyTypeObject *base = nullptr;
    if constexpr (sizeof...(B) > 0) {
      using Base = std::tuple_element_t<0, std::tuple<B...>>;
      t.base = typeid(Base);
      t.up = [](void *p) -> void * { return static_cast<Base *>((T *)p); };
      base = detail::types().at(typeid(Base)).py;
    }
    p_ = detail::new_class(name, doc, where.ptr(), base);
    t.py = (PyTypeObject *)p_;
    Py_INCREF(p_);
    detail::types().insert_or_assign(typeid(T), t);
    detail::by_py().insert_or_assign(t.py, std::type_index(typeid(T)));
  }
  template<typename F, typename... E> class_ &def(const char *name, F &&f, const E &...e)
  {
    detail::Extra x;
    (x.add(e), ...);
    detail::add_function(p_, name, detail::overload(std::forward<F>(f), true, std::move(x)));
    return *this;
  }
  template<typename F, typename... E> class_ &def_prop_ro(const char *name, F &&f, const E &...e)
  {
    detail::Extra x;
    x.pol = rv_policy::reference_internal;
    (x.add(e), ...);
    object g = checked(detail::new_function(name, nullptr, detail::overload(std::forward<F>(f), true, std::move(x))));
    object p = checked(PyObject_CallFunctionObjArgs((PyObject *)&PyProperty_Type, g.ptr(), nullptr));
    if (PyObject_SetAttrString(p_, name, p.ptr())) throw python_error();
    return *this;
  }
  template<typename M, typename... E> class_ &def_ro(const char *name, M m, const E &...e)
  {
    return def_prop_ro(name, [m](const T &t) -> const auto & { return t.*m; }, e...);
  }
};
template<typename T> class enum_ : public object
{
public:
  template<typename... E> enum_(handle where, const char *name, const E &...) : where_(object::borrow(where.ptr())), name_(name), items_(object::steal(PyDict_New())) {}
  enum_ &value(const char *n, T v, const char * = "")
  {
    object i = checked(PyLong_FromLongLong((long long)v));
    PyDict_SetItemString(items_.ptr(), n, i.ptr());
    make();
    return *this;
  }
  enum_ &export_values()
  {
    PyObject *k, *v;
    Py_ssize_t pos = 0;
    while (PyDict_Next(items_.ptr(), &pos, &k, &v)) {
      object m = checked(PyObject_GetAttr(p_, k));
      PyObject_SetAttr(where_.ptr(), k, m.ptr());
    }
    return *this;
  }

private:
  void make()
  {
    object en = checked(PyImport_ImportModule("enum"));
    Py_XDECREF(p_);
    p_ = PyObject_CallMethod(en.ptr(), "IntEnum", "sO", name_.c_str(), items_.ptr());
    if (!p_) throw python_error();
    PyObject_SetAttrString(where_.ptr(), name_.c_str(), p_);
  }
  object where_;
  std::string name_;
  object items_;
};
inline void set_leak_warnings(bool) {}
inline void set_implicit_cast_warnings(bool) {}
#ifdef NB_STAND_IN_MODULE
namespace detail {
  Types &types()
  {
    static auto *t = new Types;
    return *t;
  }
  ByPy &by_py()
  {
    static auto *t = new ByPy;
    return *t;
  }
  static void dealloc(PyObject *self)
  {
    auto *o = (Instance *)self;
    delete o->hold;
    Py_XDECREF(o->parent);
    PyTypeObject *t = Py_TYPE(self);
    t->tp_free(self);
    Py_DECREF(t);
  }
  static int no_init(PyObject *self, PyObject *, PyObject *)
  {
    PyErr_Format(PyExc_TypeError, "%s: no constructor defined!", Py_TYPE(self)->tp_name);
    return -1;
  }
  PyObject *new_class(const char *name, const char *doc, PyObject *where, PyTypeObject *base)
  {
    PyType_Slot slots[] = { { Py_tp_dealloc, (void *)dealloc }, { Py_tp_init, (void *)no_init }, { Py_tp_doc, (void *)doc }, { 0, nullptr } };
    const std::string full = "qugar.cpp." + std::string(name);
    PyType_Spec spec{ strdup(full.c_str()), (int)sizeof(Instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots };
    object bases = base ? checked(PyTuple_Pack(1, base)) : object();
    object t = checked(PyType_FromSpecWithBases(&spec, bases.ptr()));
    if (PyObject_SetAttrString(where, name, t.ptr())) throw python_error();
    return t.release().ptr();
  }
  struct Function
  {
    PyObject_HEAD std::vector<Overload> *os;
    std::string *name;
  };
  static PyObject *call(PyObject *self, PyObject *args, PyObject *kw)
  {
    auto *f = (Function *)self;
    const auto na = (std::size_t)PyTuple_GET_SIZE(args);
    const std::size_t nk = kw ? (std::size_t)PyDict_GET_SIZE(kw) : 0;
    for (int pass = f->os->size() > 1 ? 0 : 1; pass < 2; ++pass)
      for (auto &o : *f->os) {
        if (na > o.n) continue;
        std::vector<PyObject *> a(o.n, nullptr);
        std::size_t used = 0;
        bool ok = true;
        for (std::size_t i = 0; i < o.n && ok; ++i) {
          if (i < na) {
            a[i] = PyTuple_GET_ITEM(args, (Py_ssize_t)i);
            if (nk && !o.names[i].empty() && PyDict_GetItemString(kw, o.names[i].c_str())) ok = false;
          } else if (nk && !o.names[i].empty() && (a[i] = PyDict_GetItemString(kw, o.names[i].c_str())))
            ++used;
          else if (o.defaults[i])
            a[i] = o.defaults[i].ptr();
          else
            ok = false;
          if (ok && a[i] == Py_None && !o.none_ok[i]) ok = false;
        }
        if (!ok || used != nk) continue;
        bool matched = false;
        try {
          PyObject *r = o.call(a.data(), pass == 1, matched);
          if (matched) return r;
        } catch (const python_error &) {
          return nullptr;
        } catch (const next_overload &) {
        } catch (const std::out_of_range &e) {
          return PyErr_SetString(PyExc_IndexError, e.what()), nullptr;
        } catch (const std::invalid_argument &e) {
          return PyErr_SetString(PyExc_ValueError, e.what()), nullptr;
        } catch (const type_error &e) {
          return PyErr_SetString(PyExc_TypeError, e.what()), nullptr;
        } catch (const value_error &e) {
          return PyErr_SetString(PyExc_ValueError, e.what()), nullptr;
        } catch (const std::exception &e) {
          return PyErr_SetString(PyExc_RuntimeError, e.what()), nullptr;
        }
      }
    object r = object::steal(PyObject_Repr(args));
    return PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments %R %R", f->name->c_str(), args, kw ? kw : Py_None), nullptr;
  }
  static PyObject *get(PyObject *self, PyObject *obj, PyObject *)
  {
    if (!obj) return Py_NewRef(self);
    return PyMethod_New(self, obj);
  }
  static PyTypeObject *function_type()
  {
    static PyTypeObject *t = [] {
      PyType_Slot slots[] = { { Py_tp_call, (void *)call }, { Py_tp_descr_get, (void *)get }, { 0, nullptr } };
      PyType_Spec spec{ "qugar.cpp.nb_func", (int)sizeof(Function), 0, Py_TPFLAGS_DEFAULT, slots };
      return (PyTypeObject *)PyType_FromSpec(&spec);
    }();
    return t;
  }
  PyObject *new_function(const char *name, PyObject *previous, Overload o)
  {
    auto *f = (Function *)function_type()->tp_alloc(function_type(), 0);
    f->os = previous && Py_TYPE(previous) == function_type() ? new std::vector<Overload>(*((Function *)previous)->os) : new std::vector<Overload>;
    f->os->push_back(std::move(o));
    f->name = new std::string(name);
    return (PyObject *)f;
  }
}// namespace detail
#endif
}// namespace nanobind
#ifdef NB_STAND_IN_MODULE
#define NB_MODULE(name, m)                                                                                  \
  static void nb_init_##name(nanobind::module_ &);                                                          \
  extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name()                               \
  {                                                                                                         \
    import_array();                                                                                         \
    static PyModuleDef def{ PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr }; \
    nanobind::module_ m(nanobind::object::steal(PyModule_Create(&def)));                                    \
    try {                                                                                                   \
      nb_init_##name(m);                                                                                    \
    } catch (const nanobind::python_error &) {                                                              \
      return nullptr;                                                                                       \
    } catch (const std::exception &e) {                                                                     \
      return PyErr_SetString(PyExc_ImportError, e.what()), nullptr;                                         \
    }                                                                                                       \
    return m.release().ptr();                                                                               \
  }                                                                                                         \
  void nb_init_##name(nanobind::module_ &m)
#endif
