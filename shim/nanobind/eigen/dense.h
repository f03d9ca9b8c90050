#pragma once
#include "../nanobind.h"
#include <Eigen/Core>

namespace nanobind {

template <class S> struct np_name;
template <> struct np_name<float> {
  static constexpr const char *v = "float32";
  static constexpr char fmt = 'f';
};
template <> struct np_name<double> {
  static constexpr const char *v = "float64";
  static constexpr char fmt = 'd';
};
template <> struct np_name<std::int64_t> {
  static constexpr const char *v = "int64";
  static constexpr char fmt = 'l';
};
template <> struct np_name<std::int32_t> {
  static constexpr const char *v = "int32";
  static constexpr char fmt = 'i';
};

struct buffer_guard {
  Py_buffer b{};
  bool ok = false;
  bool get(PyObject *o, int flags) {
    ok = PyObject_GetBuffer(o, &b, flags) == 0;
    if (!ok)
      PyErr_Clear();
    return ok;
  }
  ~buffer_guard() {
    if (ok)
      PyBuffer_Release(&b);
  }
};

template <class S> bool fmt_matches(const Py_buffer &b) {
  if (!b.format)
    return false;
  const char *f = b.format;
  if (*f == '@' || *f == '=' || *f == '<')
    f++;
  if (f[1])
    return false;
  if (std::is_floating_point_v<S>)
    return *f == np_name<S>::fmt;
  return static_cast<size_t>(b.itemsize) == sizeof(S) &&
         (*f == 'l' || *f == 'q' || *f == 'i');
}

inline bool is_ndarray(PyObject *o) {
  static PyObject *cls = nullptr;
  if (!cls) {
    object np = import_("numpy");
    cls = getattr(np.ptr(), "ndarray").release();
  }
  int r = PyObject_IsInstance(o, cls);
  if (r < 0)
    PyErr_Clear();
  return r == 1;
}

// contiguous array of the given dtype / order, converting if needed
template <class S> object as_array(PyObject *o, bool rowmajor) {
  object np = import_("numpy");
  object fn = getattr(np.ptr(), "asarray");
  object kw = steal(PyDict_New());
  object dt = steal(PyUnicode_FromString(np_name<S>::v));
  object order = steal(PyUnicode_FromString(rowmajor ? "C" : "F"));
  PyDict_SetItemString(kw.ptr(), "dtype", dt.ptr());
  PyDict_SetItemString(kw.ptr(), "order", order.ptr());
  object args = steal(PyTuple_Pack(1, o));
  PyObject *r = PyObject_Call(fn.ptr(), args.ptr(), kw.ptr());
  if (!r) {
    PyErr_Clear();
    throw next_overload();
  }
  return steal(r);
}

template <class S> object np_empty(std::vector<Py_ssize_t> shape, bool rowmajor) {
  object np = import_("numpy");
  object fn = getattr(np.ptr(), "empty");
  object sh = steal(PyTuple_New(static_cast<Py_ssize_t>(shape.size())));
  for (size_t i = 0; i < shape.size(); i++)
    PyTuple_SET_ITEM(sh.ptr(), static_cast<Py_ssize_t>(i),
                     PyLong_FromSsize_t(shape[i]));
  object args = steal(PyTuple_Pack(1, sh.ptr()));
  object kw = steal(PyDict_New());
  object dt = steal(PyUnicode_FromString(np_name<S>::v));
  object order = steal(PyUnicode_FromString(rowmajor ? "C" : "F"));
  PyDict_SetItemString(kw.ptr(), "dtype", dt.ptr());
  PyDict_SetItemString(kw.ptr(), "order", order.ptr());
  return steal(PyObject_Call(fn.ptr(), args.ptr(), kw.ptr()));
}

// 1-d data copy helpers (used by the sparse caster)
template <class S> object np_from(const S *data, Py_ssize_t n) {
  object a = np_empty<S>({n}, true);
  buffer_guard g;
  if (!g.get(a.ptr(), PyBUF_CONTIG | PyBUF_FORMAT))
    throw cast_error();
  if (n)
    std::memcpy(g.b.buf, data, sizeof(S) * static_cast<size_t>(n));
  return a;
}

template <class T>
struct caster<T, std::enable_if_t<std::is_base_of_v<Eigen::PlainObjectBase<T>, T>>> {
  using S = typename T::Scalar;
  static constexpr bool is_vec = T::IsVectorAtCompileTime;
  static constexpr bool row = T::IsRowMajor;
  static T load(PyObject *o) {
    if (!is_ndarray(o))
      throw next_overload();
    object a = as_array<S>(o, row);
    buffer_guard g;
    if (!g.get(a.ptr(), (row ? PyBUF_C_CONTIGUOUS : PyBUF_F_CONTIGUOUS) |
                            PyBUF_FORMAT))
      throw next_overload();
    if (g.b.ndim != (is_vec ? 1 : 2))
      throw next_overload();
    Eigen::Index r, c;
    if constexpr (is_vec) {
      r = T::RowsAtCompileTime == 1 ? 1 : g.b.shape[0];
      c = T::RowsAtCompileTime == 1 ? g.b.shape[0] : 1;
    } else {
      r = g.b.shape[0];
      c = g.b.shape[1];
    }
    return Eigen::Map<const T>(static_cast<const S *>(g.b.buf), r, c);
  }
  static PyObject *cast(const T &v) {
    object a;
    if constexpr (is_vec)
      a = np_empty<S>({v.size()}, true);
    else
      a = np_empty<S>({v.rows(), v.cols()}, row);
    buffer_guard g;
    if (!g.get(a.ptr(), (row || is_vec ? PyBUF_C_CONTIGUOUS
                                       : PyBUF_F_CONTIGUOUS) |
                            PyBUF_WRITABLE | PyBUF_FORMAT))
      throw cast_error();
    if (v.size())
      std::memcpy(g.b.buf, v.data(), sizeof(S) * static_cast<size_t>(v.size()));
    return a.release();
  }
};

// Eigen::Ref<RowMajor matrix>: no conversion, writable C-contiguous array
template <class T> struct ref_holder {
  object keep;
  Eigen::Ref<T> ref;
  ref_holder(object k, typename T::Scalar *p, Eigen::Index r, Eigen::Index c)
      : keep(std::move(k)), ref(Eigen::Map<T>(p, r, c)) {}
};
template <class T> struct caster<Eigen::Ref<T>> {
  using S = typename T::Scalar;
  static ref_holder<T> load(PyObject *o) {
    if (!is_ndarray(o))
      throw next_overload();
    buffer_guard g;
    if (!g.get(o, PyBUF_C_CONTIGUOUS | PyBUF_WRITABLE | PyBUF_FORMAT) ||
        g.b.ndim != 2 || !fmt_matches<S>(g.b))
      throw next_overload();
    return ref_holder<T>(borrow(o), static_cast<S *>(g.b.buf), g.b.shape[0],
                         g.b.shape[1]);
  }
};

// numpy view on a member matrix, keeping the owner alive
struct exporter {
  PyObject_HEAD PyObject *parent;
  void *buf;
  Py_ssize_t shape[2], strides[2], itemsize;
  char fmt[2];
};
inline int exporter_get(PyObject *o, Py_buffer *b, int) {
  auto *e = reinterpret_cast<exporter *>(o);
  b->obj = o;
  Py_INCREF(o);
  b->buf = e->buf;
  b->len = e->shape[0] * e->shape[1] * e->itemsize;
  b->itemsize = e->itemsize;
  b->readonly = 0;
  b->ndim = 2;
  b->format = e->fmt;
  b->shape = e->shape;
  b->strides = e->strides;
  b->suboffsets = nullptr;
  b->internal = nullptr;
  return 0;
}
inline void exporter_dealloc(PyObject *o) {
  PyTypeObject *t = Py_TYPE(o);
  Py_XDECREF(reinterpret_cast<exporter *>(o)->parent);
  t->tp_free(o);
  Py_DECREF(t);
}
inline PyTypeObject *exporter_type() {
  static PyTypeObject *t = nullptr;
  if (!t) {
    PyType_Slot slots[] = {
        {Py_bf_getbuffer, reinterpret_cast<void *>(&exporter_get)},
        {Py_tp_dealloc, reinterpret_cast<void *>(&exporter_dealloc)},
        {0, nullptr}};
    PyType_Spec spec = {"nbshim.exporter", sizeof(exporter), 0,
                        Py_TPFLAGS_DEFAULT, slots};
    t = reinterpret_cast<PyTypeObject *>(PyType_FromSpec(&spec));
  }
  return t;
}
template <class T> struct view_of {
  using S = typename T::Scalar;
  static PyObject *make(T &m, PyObject *parent) {
    static_assert(T::IsRowMajor && !T::IsVectorAtCompileTime, "row major only");
    if (m.size() == 0)
      return caster<T>::cast(m);
    PyTypeObject *t = exporter_type();
    object e = steal(t->tp_alloc(t, 0));
    auto *x = reinterpret_cast<exporter *>(e.ptr());
    Py_INCREF(parent);
    x->parent = parent;
    x->buf = m.data();
    x->shape[0] = m.rows();
    x->shape[1] = m.cols();
    x->itemsize = sizeof(S);
    x->strides[0] = static_cast<Py_ssize_t>(sizeof(S)) * m.cols();
    x->strides[1] = sizeof(S);
    x->fmt[0] = np_name<S>::fmt;
    x->fmt[1] = 0;
    object np = import_("numpy");
    object fn = getattr(np.ptr(), "asarray");
    return steal(PyObject_CallFunctionObjArgs(fn.ptr(), e.ptr(), nullptr))
        .release();
  }
};
template <class S, int R, int C, int O, int MR, int MC>
struct can_view<Eigen::Matrix<S, R, C, O, MR, MC>> : std::true_type {};

// used by the variant caster: "matches without implicit conversion"
template <class T> struct exact_kind {
  static bool match(PyObject *o) { return is_ndarray(o); }
};

} // namespace nanobind
