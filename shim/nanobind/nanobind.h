// A small stand-in for the subset of nanobind that irspack's bindings use.
// It is written on the plain CPython + numpy C API so that the *real*
// cpp_source of irspack can be compiled offline.  Semantics that matter to the
// bound code follow nanobind: overloads are tried first without and then with
// implicit conversions, std exceptions map to the same Python exceptions,
// `const Eigen::Ref<Matrix>&` accepts only a writable array of the exact dtype
// with unit inner stride (any outer stride), builders returning *this give back
// the same Python object, and unpickling constructs in place.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_2_0_API_VERSION
#include <numpy/arrayobject.h>

#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>

namespace nanobind {

struct python_error {};
struct cast_error : std::runtime_error {
  cast_error() : std::runtime_error("std::bad_cast") {}
};

class handle {
public:
  handle() = default;
  handle(PyObject *p) : p_(p) {}
  PyObject *ptr() const { return p_; }
  bool is_none() const { return p_ == Py_None; }
  bool is_valid() const { return p_ != nullptr; }

protected:
  PyObject *p_ = nullptr;
};

class object : public handle {
public:
  object() = default;
  explicit object(PyObject *stolen) : handle(stolen) {}
  object(const object &o) : handle(o.p_) { Py_XINCREF(p_); }
  object(object &&o) noexcept : handle(o.p_) { o.p_ = nullptr; }
  object &operator=(object o) {
    std::swap(p_, o.p_);
    return *this;
  }
  ~object() { Py_XDECREF(p_); }
  PyObject *release() {
    auto r = p_;
    p_ = nullptr;
    return r;
  }
};
inline object borrow(PyObject *p) {
  Py_XINCREF(p);
  return object(p);
}
inline object steal(PyObject *p) {
  if (!p)
    throw python_error();
  return object(p);
}

class tuple : public object {
public:
  tuple() = default;
  explicit tuple(PyObject *stolen) : object(stolen) {}
  size_t size() const { return (size_t)PyTuple_GET_SIZE(p_); }
  handle operator[](size_t i) const {
    if (i >= size())
      throw std::out_of_range("tuple index out of range");
    return handle(PyTuple_GET_ITEM(p_, (Py_ssize_t)i));
  }
};

template <class T> class class_;
template <class T> class enum_;

namespace detail {

struct Inst {
  PyObject_HEAD void *ptr;
  bool constructed;
};
struct ClassInfo {
  PyTypeObject *type = nullptr;
  size_t size = 0;
  void (*destroy)(void *) = nullptr;
};
struct EnumInfo {
  PyObject *type = nullptr;
};
// one registry per extension module (every module is one translation unit)
inline std::unordered_map<std::type_index, ClassInfo> &classes() {
  static auto *m = new std::unordered_map<std::type_index, ClassInfo>();
  return *m;
}
inline std::unordered_map<PyTypeObject *, ClassInfo> &by_type() {
  static auto *m = new std::unordered_map<PyTypeObject *, ClassInfo>();
  return *m;
}
inline std::unordered_map<std::type_index, EnumInfo> &enums() {
  static auto *m = new std::unordered_map<std::type_index, EnumInfo>();
  return *m;
}
inline std::unordered_map<void *, PyObject *> &instances() {
  static auto *m = new std::unordered_map<void *, PyObject *>();
  return *m;
}
inline bool &allow_uninit() {
  static bool v = false;
  return v;
}

inline const ClassInfo *info_of(PyTypeObject *t) {
  for (; t; t = t->tp_base) {
    auto it = by_type().find(t);
    if (it != by_type().end())
      return &it->second;
  }
  return nullptr;
}
inline PyObject *inst_new(PyTypeObject *t, PyObject *, PyObject *) {
  const ClassInfo *ci = info_of(t);
  if (!ci) {
    PyErr_SetString(PyExc_TypeError, "unknown bound type");
    return nullptr;
  }
  Inst *self = (Inst *)t->tp_alloc(t, 0);
  if (!self)
    return nullptr;
  size_t sz = ((ci->size ? ci->size : 1) + 63) / 64 * 64;
  self->ptr = std::aligned_alloc(64, sz);
  std::memset(self->ptr, 0xA5, sz);
  self->constructed = false;
  instances()[self->ptr] = (PyObject *)self;
  return (PyObject *)self;
}
inline void inst_dealloc(PyObject *o) {
  Inst *self = (Inst *)o;
  PyTypeObject *t = Py_TYPE(o);
  const ClassInfo *ci = info_of(t);
  if (self->ptr) {
    instances().erase(self->ptr);
    if (self->constructed && ci)
      ci->destroy(self->ptr);
    std::free(self->ptr);
  }
  t->tp_free(o);
  Py_DECREF(t);
}
inline int inst_init_fail(PyObject *self, PyObject *, PyObject *) {
  PyErr_Format(PyExc_TypeError, "%s: no constructor defined!",
               Py_TYPE(self)->tp_name);
  return -1;
}

// ---------------------------------------------------------------- casters
template <class T> using intrinsic_t = std::remove_cv_t<std::remove_reference_t<T>>;

template <class T, class SFINAE = void> struct type_caster { // bound classes
  T *p = nullptr;
  bool load(PyObject *o, bool) {
    auto it = classes().find(typeid(T));
    if (it == classes().end() || !PyObject_TypeCheck(o, it->second.type))
      return false;
    Inst *i = (Inst *)o;
    if (!i->constructed && !allow_uninit())
      return false;
    p = (T *)i->ptr;
    return true;
  }
  T &get() { return *p; }
  template <class U> static PyObject *make(U &&v) {
    auto it = classes().find(typeid(T));
    if (it == classes().end()) {
      PyErr_Format(PyExc_TypeError, "return type %s is not bound", typeid(T).name());
      return nullptr;
    }
    PyObject *o = inst_new(it->second.type, nullptr, nullptr);
    if (!o)
      return nullptr;
    new (((Inst *)o)->ptr) T(std::forward<U>(v));
    ((Inst *)o)->constructed = true;
    return o;
  }
  static PyObject *cast(T &&v) { return make(std::move(v)); }
  static PyObject *cast(const T &v) {
    auto it = instances().find((void *)&v);
    auto ci = classes().find(typeid(T));
    if (it != instances().end() && ci != classes().end() &&
        PyObject_TypeCheck(it->second, ci->second.type)) {
      Py_INCREF(it->second);
      return it->second;
    }
    return make(v);
  }
};

template <class T>
struct type_caster<T, std::enable_if_t<std::is_enum_v<T>>> {
  T v{};
  bool load(PyObject *o, bool) {
    auto it = enums().find(typeid(T));
    if (it == enums().end() || PyObject_IsInstance(o, it->second.type) != 1) {
      PyErr_Clear();
      return false;
    }
    PyObject *val = PyObject_GetAttrString(o, "value");
    if (!val) {
      PyErr_Clear();
      return false;
    }
    long l = PyLong_AsLong(val);
    Py_DECREF(val);
    v = (T)l;
    return true;
  }
  T &get() { return v; }
  static PyObject *cast(T x) {
    auto it = enums().find(typeid(T));
    if (it == enums().end()) {
      PyErr_SetString(PyExc_TypeError, "enum is not bound");
      return nullptr;
    }
    return PyObject_CallFunction(it->second.type, "l", (long)x);
  }
};

template <> struct type_caster<bool> {
  bool v = false;
  bool load(PyObject *o, bool) {
    if (o == Py_True) {
      v = true;
      return true;
    }
    if (o == Py_False) {
      v = false;
      return true;
    }
    return false;
  }
  bool &get() { return v; }
  static PyObject *cast(bool x) { return PyBool_FromLong(x); }
};

template <class T>
struct type_caster<T, std::enable_if_t<std::is_integral_v<T> &&
                                       !std::is_same_v<T, bool>>> {
  T v = 0;
  bool load(PyObject *o, bool convert) {
    object tmp;
    if (!PyLong_Check(o)) {
      if (!convert || PyFloat_Check(o) || !PyIndex_Check(o))
        return false;
      PyObject *n = PyNumber_Index(o);
      if (!n) {
        PyErr_Clear();
        return false;
      }
      tmp = object(n);
      o = n;
    }
    if constexpr (std::is_unsigned_v<T>) {
      unsigned long long x = PyLong_AsUnsignedLongLong(o);
      if (PyErr_Occurred()) {
        PyErr_Clear();
        return false;
      }
      v = (T)x;
      return (unsigned long long)v == x;
    } else {
      long long x = PyLong_AsLongLong(o);
      if (x == -1 && PyErr_Occurred()) {
        PyErr_Clear();
        return false;
      }
      v = (T)x;
      return (long long)v == x;
    }
  }
  T &get() { return v; }
  static PyObject *cast(T x) {
    if constexpr (std::is_unsigned_v<T>)
      return PyLong_FromUnsignedLongLong(x);
    else
      return PyLong_FromLongLong(x);
  }
};

template <class T>
struct type_caster<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  T v = 0;
  bool load(PyObject *o, bool convert) {
    if (!PyFloat_CheckExact(o) && !convert)
      return false;
    double d = PyFloat_AsDouble(o);
    if (d == -1.0 && PyErr_Occurred()) {
      PyErr_Clear();
      return false;
    }
    v = (T)d;
    return true;
  }
  T &get() { return v; }
  static PyObject *cast(T x) { return PyFloat_FromDouble((double)x); }
};

template <> struct type_caster<std::string> {
  std::string v;
  bool load(PyObject *o, bool) {
    if (!PyUnicode_Check(o))
      return false;
    Py_ssize_t n;
    const char *s = PyUnicode_AsUTF8AndSize(o, &n);
    if (!s) {
      PyErr_Clear();
      return false;
    }
    v.assign(s, (size_t)n);
    return true;
  }
  std::string &get() { return v; }
  static PyObject *cast(const std::string &s) {
    return PyUnicode_FromStringAndSize(s.data(), (Py_ssize_t)s.size());
  }
};
template <> struct type_caster<const char *> {
  static PyObject *cast(const char *s) { return PyUnicode_FromString(s); }
};

template <> struct type_caster<handle> {
  handle h;
  bool load(PyObject *o, bool) {
    h = handle(o);
    return true;
  }
  handle &get() { return h; }
  static PyObject *cast(handle x) {
    Py_XINCREF(x.ptr());
    return x.ptr();
  }
};
template <> struct type_caster<object> {
  object h;
  bool load(PyObject *o, bool) {
    h = borrow(o);
    return true;
  }
  object &get() { return h; }
  static PyObject *cast(const object &x) {
    Py_XINCREF(x.ptr());
    return x.ptr();
  }
};
template <> struct type_caster<tuple> {
  tuple h;
  bool load(PyObject *o, bool) {
    if (!PyTuple_Check(o))
      return false;
    Py_INCREF(o);
    h = tuple(o);
    return true;
  }
  tuple &get() { return h; }
  static PyObject *cast(const tuple &x) {
    Py_XINCREF(x.ptr());
    return x.ptr();
  }
};

// A value of this type is what a caster offers to a parameter of type A.
template <class A, class C> A pass(C &c) {
  if constexpr (std::is_pointer_v<std::remove_reference_t<A>>)
    return &c.get();
  else if constexpr (std::is_rvalue_reference_v<A>)
    return std::move(c.get());
  else
    return static_cast<A>(c.get());
}
template <class A> struct caster_for {
  using type = type_caster<std::remove_cv_t<
      std::remove_pointer_t<intrinsic_t<A>>>>;
};

template <class R> PyObject *to_py(R &&r) {
  using T = intrinsic_t<R>;
  if constexpr (std::is_pointer_v<T> &&
                !std::is_same_v<T, const char *>) {
    if (!r)
      Py_RETURN_NONE;
    return type_caster<std::remove_cv_t<std::remove_pointer_t<T>>>::cast(*r);
  } else
    return type_caster<T>::cast(std::forward<R>(r));
}

} // namespace detail

// ------------------------------------------------------------- annotations
struct arg {
  explicit arg(const char *n) : name(n) {}
  template <class T> arg operator=(T &&v) const {
    arg a(name.c_str());
    a.value = object(detail::to_py(std::forward<T>(v)));
    return a;
  }
  arg &noconvert(bool v = true) {
    no_convert = v;
    return *this;
  }
  arg &none(bool = true) { return *this; }
  std::string name;
  object value;
  bool no_convert = false;
};
inline namespace literals {
inline arg operator""_a(const char *n, size_t) { return arg(n); }
} // namespace literals
template <class... A> struct init {};
enum class rv_policy {
  automatic,
  automatic_reference,
  take_ownership,
  copy,
  move,
  reference,
  reference_internal,
  none
};
struct gil_scoped_release {
  PyThreadState *s;
  gil_scoped_release() : s(PyEval_SaveThread()) {}
  ~gil_scoped_release() { PyEval_RestoreThread(s); }
};
struct gil_scoped_acquire {
  PyGILState_STATE s;
  gil_scoped_acquire() : s(PyGILState_Ensure()) {}
  ~gil_scoped_acquire() { PyGILState_Release(s); }
};
template <class... G> struct call_guard {};
struct sig {
  sig(const char *) {}
};
struct is_method {};
struct lock_self {};

template <class T> T cast(handle h) {
  detail::type_caster<detail::intrinsic_t<T>> c;
  if (!h.ptr() || !c.load(h.ptr(), true))
    throw cast_error();
  return c.get();
}
template <class T, std::enable_if_t<!std::is_base_of_v<handle, T>, int> = 0>
object cast(T &&v) {
  return steal(detail::to_py(std::forward<T>(v)));
}
template <class... A> tuple make_tuple(A &&...a) {
  PyObject *items[] = {detail::to_py(std::forward<A>(a))..., nullptr};
  constexpr size_t n = sizeof...(A);
  for (size_t i = 0; i < n; i++)
    if (!items[i])
      throw python_error();
  PyObject *t = PyTuple_New((Py_ssize_t)n);
  for (size_t i = 0; i < n; i++)
    PyTuple_SET_ITEM(t, (Py_ssize_t)i, items[i]);
  return tuple(t);
}
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct key_error : std::runtime_error { using std::runtime_error::runtime_error; };

namespace detail {

struct func_record {
  std::vector<arg> args; // names/defaults of the trailing parameters
  size_t nargs = 0;      // including self
  bool uninit_self = false;
  std::function<PyObject *(PyObject **, bool, bool &)> impl;
};
struct func_chain {
  std::string name;
  PyMethodDef def;
  std::vector<func_record> recs;
};

inline void translate_current_exception() {
  try {
    throw;
  } catch (const python_error &) {
  } catch (const value_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const type_error &e) {
    PyErr_SetString(PyExc_TypeError, e.what());
  } catch (const index_error &e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const key_error &e) {
    PyErr_SetString(PyExc_KeyError, e.what());
  } catch (const std::bad_alloc &e) {
    PyErr_SetString(PyExc_MemoryError, e.what());
  } catch (const std::domain_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::invalid_argument &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::length_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::out_of_range &e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (const std::range_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::overflow_error &e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (const std::exception &e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (...) {
    PyErr_SetString(PyExc_RuntimeError, "unknown C++ exception");
  }
}

inline PyObject *dispatch(PyObject *capsule, PyObject *args, PyObject *kwargs) {
  func_chain *fc = (func_chain *)PyCapsule_GetPointer(capsule, "vf.func");
  size_t np = (size_t)PyTuple_GET_SIZE(args);
  for (int pass_no = 0; pass_no < 2; pass_no++) {
    for (auto &r : fc->recs) {
      if (np > r.nargs)
        continue;
      std::vector<PyObject *> argv(r.nargs, nullptr);
      for (size_t i = 0; i < np; i++)
        argv[i] = PyTuple_GET_ITEM(args, (Py_ssize_t)i);
      size_t used = 0;
      bool ok = true;
      size_t first_named = r.nargs - r.args.size();
      for (size_t i = np; i < r.nargs && ok; i++) {
        if (i < first_named) {
          ok = false;
          break;
        }
        arg &a = r.args[i - first_named];
        PyObject *v =
            kwargs ? PyDict_GetItemString(kwargs, a.name.c_str()) : nullptr;
        if (v)
          used++;
        else
          v = a.value.ptr();
        if (!v)
          ok = false;
        argv[i] = v;
      }
      if (!ok || (kwargs && used != (size_t)PyDict_Size(kwargs)))
        continue;
      bool matched = false;
      PyObject *res = nullptr;
      allow_uninit() = r.uninit_self;
      try {
        res = r.impl(argv.data(), pass_no == 1, matched);
      } catch (...) {
        allow_uninit() = false;
        translate_current_exception();
        return nullptr;
      }
      allow_uninit() = false;
      if (!matched)
        continue;
      if (res && r.uninit_self)
        ((Inst *)argv[0])->constructed = true;
      if (!res && !PyErr_Occurred())
        PyErr_SetString(PyExc_TypeError, "could not convert the return value");
      return res;
    }
  }
  std::string tn;
  for (size_t i = 0; i < np; i++)
    tn += std::string(i ? ", " : "") +
          Py_TYPE(PyTuple_GET_ITEM(args, (Py_ssize_t)i))->tp_name;
  PyErr_Format(PyExc_TypeError,
               "%s(): incompatible function arguments. Invoked with types: %s",
               fc->name.c_str(), tn.c_str());
  return nullptr;
}

template <class F, class R, class... A, size_t... I>
func_record make_record_impl(F f, std::index_sequence<I...>) {
  func_record r;
  r.nargs = sizeof...(A);
  r.impl = [f](PyObject **argv, bool convert, bool &matched) -> PyObject * {
    std::tuple<typename caster_for<A>::type...> c;
    (void)argv;
    (void)convert;
    bool ok = true;
    ((ok = ok && std::get<I>(c).load(argv[I], convert)), ...);
    if (!ok)
      return nullptr;
    matched = true;
    allow_uninit() = false;
    if constexpr (std::is_void_v<R>) {
      f(pass<A>(std::get<I>(c))...);
      Py_RETURN_NONE;
    } else {
      return to_py<R>(f(pass<A>(std::get<I>(c))...));
    }
  };
  return r;
}
template <class F, class R, class... A> func_record make_record(F f) {
  return make_record_impl<F, R, A...>(std::move(f),
                                      std::index_sequence_for<A...>());
}
template <class R, class... A> func_record record_of(R (*f)(A...)) {
  return make_record<R (*)(A...), R, A...>(f);
}
template <class C, class R, class... A> func_record record_of(R (C::*f)(A...)) {
  auto g = [f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
  return make_record<decltype(g), R, C &, A...>(g);
}
template <class C, class R, class... A>
func_record record_of(R (C::*f)(A...) const) {
  auto g = [f](const C &c, A... a) -> R {
    return (c.*f)(std::forward<A>(a)...);
  };
  return make_record<decltype(g), R, const C &, A...>(g);
}
template <class F, class C, class R, class... A>
func_record record_of_lambda(F f, R (C::*)(A...) const) {
  return make_record<F, R, A...>(std::move(f));
}
template <class F, class = decltype(&F::operator())>
func_record record_of(F f) {
  return record_of_lambda(std::move(f), &F::operator());
}

inline void add_extra(func_record &r, const arg &a) { r.args.push_back(a); }
template <class T> void add_extra(func_record &, const T &) {}

inline PyObject *new_func(const std::string &name, func_record r,
                          func_chain **out) {
  func_chain *fc = new func_chain();
  fc->name = name;
  fc->def = {fc->name.c_str(), (PyCFunction)(void *)dispatch,
             METH_VARARGS | METH_KEYWORDS, nullptr};
  fc->recs.push_back(std::move(r));
  PyObject *cap = PyCapsule_New(fc, "vf.func", nullptr);
  PyObject *fn = PyCFunction_NewEx(&fc->def, cap, nullptr);
  Py_DECREF(cap);
  if (out)
    *out = fc;
  return fn;
}
} // namespace detail

struct attr_proxy {
  PyObject *obj;
  std::string name;
  template <class T> attr_proxy &operator=(T &&v) {
    PyObject *p = detail::to_py(std::forward<T>(v));
    if (!p || PyObject_SetAttrString(obj, name.c_str(), p) < 0)
      throw python_error();
    Py_DECREF(p);
    return *this;
  }
};

class module_ : public handle {
public:
  using handle::handle;
  struct doc_proxy {
    PyObject *m;
    template <class T> doc_proxy &operator=(T &&s) {
      PyObject *p = detail::to_py(std::forward<T>(s));
      PyObject_SetAttrString(m, "__doc__", p);
      Py_DECREF(p);
      return *this;
    }
  };
  doc_proxy doc() { return {ptr()}; }
  attr_proxy attr(const char *n) { return {ptr(), n}; }
  template <class F, class... E>
  module_ &def(const char *name, F &&f, const E &...e) {
    auto r = detail::record_of(std::forward<F>(f));
    (detail::add_extra(r, e), ...);
    auto it = chains().find({ptr(), name});
    if (it != chains().end()) {
      it->second->recs.push_back(std::move(r));
      return *this;
    }
    detail::func_chain *fc;
    PyObject *fn = detail::new_func(name, std::move(r), &fc);
    chains()[{ptr(), name}] = fc;
    PyObject_SetAttrString(ptr(), name, fn);
    Py_DECREF(fn);
    return *this;
  }

private:
  static std::map<std::pair<PyObject *, std::string>, detail::func_chain *> &
  chains() {
    static auto *m =
        new std::map<std::pair<PyObject *, std::string>, detail::func_chain *>();
    return *m;
  }
};

template <class T> class class_ : public object {
public:
  class_() = default;
  template <class... E> class_(handle scope, const char *name, const E &...) {
    PyObject *mn = PyObject_GetAttrString(scope.ptr(), "__name__");
    std::string full = std::string(mn ? PyUnicode_AsUTF8(mn) : "?") + "." + name;
    Py_XDECREF(mn);
    char *fullc = strdup(full.c_str());
    PyType_Slot slots[] = {
        {Py_tp_new, (void *)detail::inst_new},
        {Py_tp_dealloc, (void *)detail::inst_dealloc},
        {Py_tp_init, (void *)detail::inst_init_fail},
        {0, nullptr},
    };
    PyType_Spec spec = {fullc, sizeof(detail::Inst), 0,
                        Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    PyObject *t = PyType_FromSpec(&spec);
    if (!t)
      throw python_error();
    p_ = t;
    detail::ClassInfo ci;
    ci.type = (PyTypeObject *)t;
    ci.size = sizeof(T);
    ci.destroy = [](void *p) { ((T *)p)->~T(); };
    detail::classes()[typeid(T)] = ci;
    detail::by_type()[ci.type] = ci;
    Py_INCREF(t);
    PyObject_SetAttrString(scope.ptr(), name, t);
  }
  template <class... A, class... E>
  class_ &def(init<A...>, const E &...e) {
    auto g = [](T &self, A... a) { new (&self) T(std::forward<A>(a)...); };
    auto r = detail::make_record<decltype(g), void, T &, A...>(g);
    r.uninit_self = true;
    (detail::add_extra(r, e), ...);
    add("__init__", std::move(r));
    return *this;
  }
  template <class F, class... E>
  class_ &def(const char *name, F &&f, const E &...e) {
    auto r = detail::record_of(rebase(std::forward<F>(f)));
    if (std::string(name) == "__setstate__" || std::string(name) == "__init__")
      r.uninit_self = true;
    (detail::add_extra(r, e), ...);
    add(name, std::move(r));
    return *this;
  }
  template <class F, class... E>
  class_ &def_static(const char *name, F &&f, const E &...e) {
    auto r = detail::record_of(std::forward<F>(f));
    (detail::add_extra(r, e), ...);
    PyObject *fn = detail::new_func(name, std::move(r), nullptr);
    PyObject *sm = PyStaticMethod_New(fn);
    PyObject_SetAttrString(ptr(), name, sm);
    return *this;
  }
  template <class C, class D, class... E>
  class_ &def_rw(const char *name, D C::*pm, const E &...) {
    return prop(name, getter_rec<C, D>(pm), setter_rec<C, D>(pm));
  }
  template <class C, class D, class... E>
  class_ &def_ro(const char *name, D C::*pm, const E &...) {
    return prop(name, getter_rec<C, D>(pm), detail::func_record());
  }
  template <class F, class... E>
  class_ &def_prop_ro(const char *name, F &&f, const E &...) {
    return prop(name, detail::record_of(std::forward<F>(f)),
                detail::func_record());
  }
  template <class F, class G, class... E>
  class_ &def_prop_rw(const char *name, F &&f, G &&g, const E &...) {
    return prop(name, detail::record_of(std::forward<F>(f)),
                detail::record_of(std::forward<G>(g)));
  }

private:
  std::map<std::string, detail::func_chain *> chains_;
  // methods inherited from an unbound base class act on T
  template <class F> static F rebase(F f) { return f; }
  template <class C, class R, class... A>
  static R (T::*rebase(R (C::*f)(A...)))(A...) {
    return f;
  }
  template <class C, class R, class... A>
  static R (T::*rebase(R (C::*f)(A...) const))(A...) const {
    return f;
  }
  void add(const std::string &name, detail::func_record r) {
    auto it = chains_.find(name);
    if (it != chains_.end()) {
      it->second->recs.push_back(std::move(r));
      return;
    }
    detail::func_chain *fc;
    PyObject *fn = detail::new_func(name, std::move(r), &fc);
    chains_[name] = fc;
    PyObject *im = PyInstanceMethod_New(fn);
    PyObject_SetAttrString(ptr(), name.c_str(), im);
    Py_DECREF(im);
    Py_DECREF(fn);
  }
  template <class C, class D> static detail::func_record getter_rec(D C::*pm) {
    detail::func_record r;
    r.nargs = 1;
    r.impl = [pm](PyObject **argv, bool, bool &matched) -> PyObject * {
      detail::type_caster<C> c;
      if (!c.load(argv[0], false))
        return nullptr;
      matched = true;
      if constexpr (has_view<detail::type_caster<D>>::value)
        return detail::type_caster<D>::view(c.get().*pm, argv[0]);
      else
        return detail::to_py(c.get().*pm);
    };
    return r;
  }
  template <class C, class D> static detail::func_record setter_rec(D C::*pm) {
    auto g = [pm](C &c, const D &d) { c.*pm = d; };
    return detail::make_record<decltype(g), void, C &, const D &>(g);
  }
  template <class X, class = void> struct has_view : std::false_type {};
  template <class X>
  struct has_view<X, std::void_t<decltype(&X::view)>> : std::true_type {};
  class_ &prop(const char *name, detail::func_record get,
               detail::func_record set) {
    PyObject *g = detail::new_func(name, std::move(get), nullptr);
    PyObject *s = set.impl ? detail::new_func(name, std::move(set), nullptr)
                           : (Py_INCREF(Py_None), Py_None);
    PyObject *p = PyObject_CallFunctionObjArgs((PyObject *)&PyProperty_Type, g,
                                               s, nullptr);
    PyObject_SetAttrString(ptr(), name, p);
    Py_XDECREF(p);
    Py_DECREF(g);
    Py_DECREF(s);
    return *this;
  }
};

template <class T> class enum_ {
public:
  template <class... E>
  enum_(handle scope, const char *name, const E &...)
      : scope_(scope), name_(name) {}
  enum_ &value(const char *n, T v) {
    vals_.push_back({n, (long)v});
    finish();
    return *this;
  }
  enum_ &value(const char *n, T v, const char *) { return value(n, v); }
  enum_ &export_values() {
    for (auto &kv : vals_) {
      PyObject *o = detail::to_py((T)kv.second);
      PyObject_SetAttrString(scope_.ptr(), kv.first.c_str(), o);
      Py_DECREF(o);
    }
    return *this;
  }

private:
  handle scope_;
  std::string name_;
  std::vector<std::pair<std::string, long>> vals_;
  void finish() {
    object em = steal(PyImport_ImportModule("enum"));
    object base = steal(PyObject_GetAttrString(em.ptr(), "Enum"));
    object lst = steal(PyList_New(0));
    for (auto &kv : vals_) {
      object t = steal(Py_BuildValue("(sl)", kv.first.c_str(), kv.second));
      PyList_Append(lst.ptr(), t.ptr());
    }
    object mn = steal(PyObject_GetAttrString(scope_.ptr(), "__name__"));
    object args = steal(Py_BuildValue("(sO)", name_.c_str(), lst.ptr()));
    object kw = steal(Py_BuildValue("{sO}", "module", mn.ptr()));
    PyObject *t = PyObject_Call(base.ptr(), args.ptr(), kw.ptr());
    if (!t)
      throw python_error();
    detail::enums()[typeid(T)].type = t;
    PyObject_SetAttrString(scope_.ptr(), name_.c_str(), t);
  }
};

} // namespace nanobind

#ifndef VF_MODULE_EXTRA
#define VF_MODULE_EXTRA(m)
#endif

#define NB_MODULE(name, variable)                                              \
  static void vf_init_##name(::nanobind::module_ &);                           \
  extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name() {\
    static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1,       \
                              nullptr, nullptr, nullptr, nullptr, nullptr};    \
    import_array();                                                            \
    PyObject *m = PyModule_Create(&def);                                       \
    if (!m)                                                                    \
      return nullptr;                                                          \
    try {                                                                      \
      ::nanobind::module_ mod(m);                                              \
      vf_init_##name(mod);                                                     \
      VF_MODULE_EXTRA(mod)                                                     \
    } catch (...) {                                                            \
      ::nanobind::detail::translate_current_exception();                       \
      Py_DECREF(m);                                                            \
      return nullptr;                                                          \
    }                                                                          \
    return m;                                                                  \
  }                                                                            \
  static void vf_init_##name(::nanobind::module_ &variable)
