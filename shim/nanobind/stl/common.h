#pragma once
#include "../nanobind.h"
#include <array>
#include <list>
#include <map>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
namespace nanobind {
namespace detail {
template <class T, class A> struct type_caster<std::vector<T, A>> {
  std::vector<T, A> v;
  bool load(PyObject *o, bool convert) {
    v.clear();
    if (PyUnicode_Check(o) || PyBytes_Check(o) || PyDict_Check(o) ||
        !PySequence_Check(o))
      return false;
    PyObject *f = PySequence_Fast(o, "sequence expected");
    if (!f) {
      PyErr_Clear();
      return false;
    }
    Py_ssize_t n = PySequence_Fast_GET_SIZE(f);
    v.reserve((size_t)n);
    for (Py_ssize_t i = 0; i < n; i++) {
      type_caster<T> c;
      if (!c.load(PySequence_Fast_GET_ITEM(f, i), convert)) {
        Py_DECREF(f);
        return false;
      }
      v.push_back(std::move(c.get()));
    }
    Py_DECREF(f);
    return true;
  }
  std::vector<T, A> &get() { return v; }
  template <class U> static PyObject *cast(U &&x) {
    PyObject *l = PyList_New((Py_ssize_t)x.size());
    Py_ssize_t i = 0;
    for (auto &&e : x) {
      PyObject *p = to_py(T(e));
      if (!p) {
        Py_DECREF(l);
        return nullptr;
      }
      PyList_SET_ITEM(l, i++, p);
    }
    return l;
  }
};
template <class T> struct type_caster<std::optional<T>> {
  std::optional<T> v;
  bool load(PyObject *o, bool convert) {
    if (o == Py_None) {
      v.reset();
      return true;
    }
    type_caster<T> c;
    if (!c.load(o, convert))
      return false;
    v = std::move(c.get());
    return true;
  }
  std::optional<T> &get() { return v; }
  template <class U> static PyObject *cast(U &&x) {
    if (!x)
      Py_RETURN_NONE;
    return to_py(T(*x));
  }
};
template <class M, class K, class V> struct map_caster {
  M v;
  bool load(PyObject *o, bool convert) {
    v.clear();
    if (!PyDict_Check(o))
      return false;
    PyObject *k, *val;
    Py_ssize_t pos = 0;
    while (PyDict_Next(o, &pos, &k, &val)) {
      type_caster<K> kc;
      type_caster<V> vc;
      if (!kc.load(k, convert) || !vc.load(val, convert))
        return false;
      v.emplace(std::move(kc.get()), std::move(vc.get()));
    }
    return true;
  }
  M &get() { return v; }
  template <class U> static PyObject *cast(U &&x) {
    PyObject *d = PyDict_New();
    for (auto &kv : x) {
      PyObject *k = to_py(K(kv.first)), *val = to_py(V(kv.second));
      if (!k || !val) {
        Py_XDECREF(k);
        Py_XDECREF(val);
        Py_DECREF(d);
        return nullptr;
      }
      PyDict_SetItem(d, k, val);
      Py_DECREF(k);
      Py_DECREF(val);
    }
    return d;
  }
};
template <class K, class V, class C, class A>
struct type_caster<std::map<K, V, C, A>>
    : map_caster<std::map<K, V, C, A>, K, V> {};
template <class K, class V, class H, class E, class A>
struct type_caster<std::unordered_map<K, V, H, E, A>>
    : map_caster<std::unordered_map<K, V, H, E, A>, K, V> {};
template <class... T> struct type_caster<std::tuple<T...>> {
  std::tuple<type_caster<T>...> c;
  std::optional<std::tuple<T...>> v;
  bool load(PyObject *o, bool convert) {
    return load_impl(o, convert, std::index_sequence_for<T...>());
  }
  template <size_t... I>
  bool load_impl(PyObject *o, bool convert, std::index_sequence<I...>) {
    if (!PyTuple_Check(o) && !PyList_Check(o))
      return false;
    if (PySequence_Size(o) != (Py_ssize_t)sizeof...(T))
      return false;
    bool saved = allow_uninit();
    allow_uninit() = false;
    PyObject *f = PySequence_Fast(o, "");
    bool ok = true;
    ((ok = ok && std::get<I>(c).load(
                     PySequence_Fast_GET_ITEM(f, (Py_ssize_t)I), convert)),
     ...);
    Py_DECREF(f);
    allow_uninit() = saved;
    if (ok)
      v.emplace(std::get<I>(c).get()...);
    return ok;
  }
  std::tuple<T...> &get() { return *v; }
  template <class U> static PyObject *cast(U &&x) {
    return std::apply(
        [](auto &&...e) { return nanobind::make_tuple(e...).release(); }, x);
  }
};
template <class A, class B> struct type_caster<std::pair<A, B>> {
  type_caster<std::tuple<A, B>> c;
  std::optional<std::pair<A, B>> v;
  bool load(PyObject *o, bool convert) {
    if (!c.load(o, convert))
      return false;
    v.emplace(std::get<0>(c.get()), std::get<1>(c.get()));
    return true;
  }
  std::pair<A, B> &get() { return *v; }
  template <class U> static PyObject *cast(U &&x) {
    return nanobind::make_tuple(A(x.first), B(x.second)).release();
  }
};
template <class... T> struct type_caster<std::variant<T...>> {
  std::optional<std::variant<T...>> v;
  template <class X> bool try_one(PyObject *o, bool convert) {
    type_caster<X> c;
    if (!c.load(o, convert))
      return false;
    v.emplace(X(c.get()));
    return true;
  }
  bool load(PyObject *o, bool convert) {
    if ((try_one<T>(o, false) || ...))
      return true;
    return convert && (try_one<T>(o, true) || ...);
  }
  std::variant<T...> &get() { return *v; }
  template <class U> static PyObject *cast(U &&x) {
    return std::visit([](auto &&e) { return to_py(e); }, x);
  }
};
} // namespace detail
} // namespace nanobind
