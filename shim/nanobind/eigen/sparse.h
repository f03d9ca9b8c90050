#pragma once
#include "dense.h"
#include <Eigen/SparseCore>

namespace nanobind {
template <class S, int Opt, class I>
struct caster<Eigen::SparseMatrix<S, Opt, I>> {
  using T = Eigen::SparseMatrix<S, Opt, I>;
  static constexpr bool row = T::IsRowMajor;
  static PyObject *pytype() {
    static PyObject *cls = nullptr;
    if (!cls) {
      object sps = import_("scipy.sparse");
      cls = getattr(sps.ptr(), row ? "csr_matrix" : "csc_matrix").release();
    }
    return cls;
  }
  static T load(PyObject *src) {
    object o = borrow(src);
    if (reinterpret_cast<PyObject *>(Py_TYPE(src)) != pytype()) {
      PyObject *c = PyObject_CallFunctionObjArgs(pytype(), src, nullptr);
      if (!c) {
        PyErr_Clear();
        throw next_overload();
      }
      o = steal(c);
    }
    object sorted = getattr(o.ptr(), "has_sorted_indices");
    if (PyObject_IsTrue(sorted.ptr()) != 1)
      steal(PyObject_CallMethod(o.ptr(), "sort_indices", nullptr));
    object data = as_array<S>(getattr(o.ptr(), "data").ptr(), true);
    object ind = as_array<I>(getattr(o.ptr(), "indices").ptr(), true);
    object ptr = as_array<I>(getattr(o.ptr(), "indptr").ptr(), true);
    object shape = getattr(o.ptr(), "shape");
    Eigen::Index r = PyLong_AsLongLong(PyTuple_GetItem(shape.ptr(), 0));
    Eigen::Index c = PyLong_AsLongLong(PyTuple_GetItem(shape.ptr(), 1));
    buffer_guard bd, bi, bp;
    if (!bd.get(data.ptr(), PyBUF_C_CONTIGUOUS | PyBUF_FORMAT) ||
        !bi.get(ind.ptr(), PyBUF_C_CONTIGUOUS | PyBUF_FORMAT) ||
        !bp.get(ptr.ptr(), PyBUF_C_CONTIGUOUS | PyBUF_FORMAT))
      throw next_overload();
    const I *outer = static_cast<const I *>(bp.b.buf);
    Eigen::Index nnz = outer[row ? r : c];
    return Eigen::Map<const T>(r, c, nnz, outer,
                               static_cast<const I *>(bi.b.buf),
                               static_cast<const S *>(bd.b.buf));
  }
  static PyObject *cast(const T &v) {
    if (!v.isCompressed()) {
      PyErr_SetString(PyExc_ValueError,
                      "unable to return an Eigen sparse matrix that is not in "
                      "a compressed format");
      throw python_error();
    }
    object data = np_from<S>(v.valuePtr(), v.nonZeros());
    object ind = np_from<I>(v.innerIndexPtr(), v.nonZeros());
    object ptr = np_from<I>(v.outerIndexPtr(), v.outerSize() + 1);
    object args = steal(Py_BuildValue("((OOO)(nn))", data.ptr(), ind.ptr(),
                                      ptr.ptr(),
                                      static_cast<Py_ssize_t>(v.rows()),
                                      static_cast<Py_ssize_t>(v.cols())));
    return steal(PyObject_CallObject(pytype(), args.ptr())).release();
  }
};
template <class S, int Opt, class I>
struct exact_kind<Eigen::SparseMatrix<S, Opt, I>> {
  using T = Eigen::SparseMatrix<S, Opt, I>;
  static bool match(PyObject *o) {
    object sps = import_("scipy.sparse");
    object r = steal(PyObject_CallMethod(sps.ptr(), "issparse", "O", o));
    return PyObject_IsTrue(r.ptr()) == 1;
  }
};
} // namespace nanobind
