#pragma once
#include "../nanobind.h"
#include <Eigen/Core>
#include <Eigen/Sparse>
#include <optional>
namespace nanobind {
namespace detail {
template <class S> struct npy_type;
template <> struct npy_type<double> { static constexpr int v = NPY_DOUBLE; };
template <> struct npy_type<float> { static constexpr int v = NPY_FLOAT; };
template <> struct npy_type<int> { static constexpr int v = NPY_INT; };
template <> struct npy_type<long> { static constexpr int v = NPY_LONG; };
template <> struct npy_type<long long> { static constexpr int v = NPY_LONGLONG; };
template <> struct npy_type<unsigned int> { static constexpr int v = NPY_UINT; };
template <> struct npy_type<unsigned long> { static constexpr int v = NPY_ULONG; };
template <> struct npy_type<bool> { static constexpr int v = NPY_BOOL; };

template <class S> bool exact_dtype(PyArrayObject *a) {
  return PyArray_EquivTypenums(PyArray_TYPE(a), npy_type<S>::v) &&
         PyArray_ISNOTSWAPPED(a);
}

template <class S, int R, int C, int O, int MR, int MC>
struct type_caster<Eigen::Matrix<S, R, C, O, MR, MC>> {
  using M = Eigen::Matrix<S, R, C, O, MR, MC>;
  static constexpr bool is_vec = (R == 1 || C == 1);
  static constexpr int nd = is_vec ? 1 : 2;
  M v;
  bool load(PyObject *o, bool convert) {
    if (!PyArray_Check(o))
      return false;
    PyArrayObject *a = (PyArrayObject *)o;
    if (PyArray_NDIM(a) != nd)
      return false;
    bool row = (O & Eigen::RowMajor) != 0;
    bool contig =
        row || is_vec ? PyArray_IS_C_CONTIGUOUS(a) : PyArray_IS_F_CONTIGUOUS(a);
    if (!convert && (!exact_dtype<S>(a) || !contig))
      return false;
    PyObject *b = PyArray_FROM_OTF(
        o, npy_type<S>::v,
        NPY_ARRAY_FORCECAST | NPY_ARRAY_ALIGNED | NPY_ARRAY_NOTSWAPPED |
            (row || is_vec ? NPY_ARRAY_C_CONTIGUOUS : NPY_ARRAY_F_CONTIGUOUS));
    if (!b) {
      PyErr_Clear();
      return false;
    }
    a = (PyArrayObject *)b;
    npy_intp r = PyArray_DIM(a, 0), c = nd == 2 ? PyArray_DIM(a, 1) : 1;
    if constexpr (is_vec) {
      if (R != 1 && R != Eigen::Dynamic && r != R) { Py_DECREF(b); return false; }
      v.resize(r);
    } else {
      if ((R != Eigen::Dynamic && r != R) || (C != Eigen::Dynamic && c != C)) {
        Py_DECREF(b);
        return false;
      }
      v.resize(r, c);
    }
    if (v.size())
      std::memcpy(v.data(), PyArray_DATA(a), sizeof(S) * (size_t)v.size());
    Py_DECREF(b);
    return true;
  }
  M &get() { return v; }
  static void strides(const M &m, npy_intp *dims, npy_intp *st) {
    if (is_vec) {
      dims[0] = m.size();
      st[0] = sizeof(S);
      return;
    }
    dims[0] = m.rows();
    dims[1] = m.cols();
    bool row = (O & Eigen::RowMajor) != 0;
    st[0] = (npy_intp)sizeof(S) * (row ? m.cols() : 1);
    st[1] = (npy_intp)sizeof(S) * (row ? 1 : m.rows());
  }
  static PyObject *view(M &m, PyObject *owner) {
    npy_intp dims[2], st[2];
    strides(m, dims, st);
    static S dummy{};
    PyObject *a = PyArray_New(&PyArray_Type, nd, dims, npy_type<S>::v, st,
                              m.size() ? (void *)m.data() : (void *)&dummy, 0,
                              NPY_ARRAY_WRITEABLE, nullptr);
    if (!a)
      return nullptr;
    Py_INCREF(owner);
    PyArray_SetBaseObject((PyArrayObject *)a, owner);
    PyArray_UpdateFlags((PyArrayObject *)a,
                        NPY_ARRAY_C_CONTIGUOUS | NPY_ARRAY_F_CONTIGUOUS |
                            NPY_ARRAY_ALIGNED);
    return a;
  }
  static PyObject *cast(const M &m) {
    npy_intp dims[2], st[2];
    strides(m, dims, st);
    bool row = (O & Eigen::RowMajor) != 0;
    PyObject *a = PyArray_EMPTY(nd, dims, npy_type<S>::v, (row || is_vec) ? 0 : 1);
    if (a && m.size())
      std::memcpy(PyArray_DATA((PyArrayObject *)a), m.data(),
                  sizeof(S) * (size_t)m.size());
    return a;
  }
};

template <class T, int Opt, class Stride>
struct type_caster<Eigen::Ref<T, Opt, Stride>> {
  using P = std::remove_cv_t<T>;
  using S = typename P::Scalar;
  static constexpr bool is_const = std::is_const_v<T>;
  static constexpr bool row = P::IsRowMajor;
  static constexpr bool is_vec = P::IsVectorAtCompileTime;
  static constexpr int nd = is_vec ? 1 : 2;
  using MapStride =
      std::conditional_t<is_vec, Eigen::InnerStride<1>, Eigen::OuterStride<>>;
  using Map = Eigen::Map<T, 0, MapStride>;
  object keep;
  std::optional<Map> map;
  std::optional<Eigen::Ref<T, Opt, Stride>> ref;
  bool load(PyObject *o, bool convert) {
    if (!PyArray_Check(o))
      return false;
    PyArrayObject *a = (PyArrayObject *)o;
    if (PyArray_NDIM(a) != nd)
      return false;
    auto fits = [&](PyArrayObject *x) {
      if (!exact_dtype<S>(x) || !PyArray_ISALIGNED(x))
        return false;
      int inner = nd == 1 ? 0 : (row ? 1 : 0);
      if (PyArray_DIM(x, inner) > 1 &&
          PyArray_STRIDE(x, inner) != (npy_intp)sizeof(S))
        return false;
      if (nd == 2) {
        int outer = row ? 0 : 1;
        if (PyArray_DIM(x, outer) > 1 &&
            (PyArray_STRIDE(x, outer) % (npy_intp)sizeof(S)) != 0)
          return false;
      }
      return true;
    };
    if (!is_const) {
      if (!PyArray_ISWRITEABLE(a) || !fits(a))
        return false;
      keep = borrow(o);
    } else if (fits(a)) {
      keep = borrow(o);
    } else {
      if (!convert)
        return false;
      PyObject *b = PyArray_FROM_OTF(
          o, npy_type<S>::v,
          NPY_ARRAY_FORCECAST | NPY_ARRAY_ALIGNED | NPY_ARRAY_NOTSWAPPED |
              (row || is_vec ? NPY_ARRAY_C_CONTIGUOUS
                             : NPY_ARRAY_F_CONTIGUOUS));
      if (!b) {
        PyErr_Clear();
        return false;
      }
      keep = object(b);
      a = (PyArrayObject *)b;
    }
    if constexpr (is_vec) {
      map.emplace((S *)PyArray_DATA(a), PyArray_DIM(a, 0), MapStride());
    } else {
      int outer = row ? 0 : 1, inner = row ? 1 : 0;
      npy_intp os = PyArray_DIM(a, outer) > 1
                        ? PyArray_STRIDE(a, outer) / (npy_intp)sizeof(S)
                        : PyArray_DIM(a, inner);
      map.emplace((S *)PyArray_DATA(a), PyArray_DIM(a, 0), PyArray_DIM(a, 1),
                  MapStride(os));
    }
    ref.emplace(*map);
    return true;
  }
  Eigen::Ref<T, Opt, Stride> &get() { return *ref; }
};

template <class S, int O, class I>
struct type_caster<Eigen::SparseMatrix<S, O, I>> {
  using M = Eigen::SparseMatrix<S, O, I>;
  static constexpr bool row = (O & Eigen::RowMajor) != 0;
  M v;
  static object type() {
    object mod = steal(PyImport_ImportModule("scipy.sparse"));
    return steal(
        PyObject_GetAttrString(mod.ptr(), row ? "csr_matrix" : "csc_matrix"));
  }
  static object arr(PyObject *o, const char *name, int typenum) {
    object a = steal(PyObject_GetAttrString(o, name));
    return steal(PyArray_FROM_OTF(a.ptr(), typenum,
                                  NPY_ARRAY_FORCECAST | NPY_ARRAY_C_CONTIGUOUS |
                                      NPY_ARRAY_ALIGNED |
                                      NPY_ARRAY_NOTSWAPPED));
  }
  bool load(PyObject *o, bool convert) {
    try {
      object t = type();
      object m = borrow(o);
      if ((PyObject *)Py_TYPE(o) != t.ptr()) {
        if (!convert)
          return false;
        PyObject *c = PyObject_CallFunctionObjArgs(t.ptr(), o, nullptr);
        if (!c) {
          PyErr_Clear();
          return false;
        }
        m = object(c);
      }
      object d0 = steal(PyObject_GetAttrString(m.ptr(), "data"));
      if (!convert && !exact_dtype<S>((PyArrayObject *)d0.ptr()))
        return false;
      object sorted =
          steal(PyObject_GetAttrString(m.ptr(), "has_sorted_indices"));
      if (PyObject_IsTrue(sorted.ptr()) != 1) {
        object r = steal(PyObject_CallMethod(m.ptr(), "sort_indices", nullptr));
      }
      object d = arr(m.ptr(), "data", npy_type<S>::v);
      object idx = arr(m.ptr(), "indices", npy_type<I>::v);
      object ptr = arr(m.ptr(), "indptr", npy_type<I>::v);
      object shape = steal(PyObject_GetAttrString(m.ptr(), "shape"));
      long r = PyLong_AsLong(PyTuple_GET_ITEM(shape.ptr(), 0));
      long c = PyLong_AsLong(PyTuple_GET_ITEM(shape.ptr(), 1));
      I *ip = (I *)PyArray_DATA((PyArrayObject *)ptr.ptr());
      long nnz = (long)ip[row ? r : c];
      v = Eigen::Map<const M>(r, c, nnz, ip,
                              (I *)PyArray_DATA((PyArrayObject *)idx.ptr()),
                              (S *)PyArray_DATA((PyArrayObject *)d.ptr()));
      return true;
    } catch (const python_error &) {
      PyErr_Clear();
      return false;
    }
  }
  M &get() { return v; }
  template <class T> static PyObject *mk(const T *p, npy_intp n) {
    PyObject *a = PyArray_SimpleNew(1, &n, npy_type<T>::v);
    if (a && n)
      std::memcpy(PyArray_DATA((PyArrayObject *)a), p, sizeof(T) * (size_t)n);
    return a;
  }
  static PyObject *cast(const M &m_) {
    M m(m_);
    m.makeCompressed();
    object t = type();
    npy_intp nnz = m.nonZeros();
    object d = steal(mk<S>(m.valuePtr(), nnz));
    object i = steal(mk<I>(m.innerIndexPtr(), nnz));
    object p = steal(mk<I>(m.outerIndexPtr(), m.outerSize() + 1));
    object args =
        steal(Py_BuildValue("((OOO)(ll))", d.ptr(), i.ptr(), p.ptr(),
                            (long)m.rows(), (long)m.cols()));
    return PyObject_CallObject(t.ptr(), args.ptr());
  }
};
} // namespace detail
} // namespace nanobind
