// Minimal stand-in for the subset of nanobind that irspack's wrappers use.
// Written for the verification harness in /verif only: nanobind itself is not
// installed in this sandbox.  Built directly on the CPython C API; numpy and
// scipy objects are handled through their Python-level interfaces.
#pragma once
#include <Python.h>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

namespace nanobind {

struct python_error : std::runtime_error {
  python_error() : std::runtime_error("python error set") {}
};
struct next_overload : std::runtime_error {
  next_overload() : std::runtime_error("next overload") {}
};
struct cast_error : std::runtime_error {
  cast_error() : std::runtime_error("std::bad_cast") {}
};

// ---------------------------------------------------------------- objects
struct handle {
  PyObject *p = nullptr;
  handle() = default;
  handle(PyObject *q) : p(q) {}
  PyObject *ptr() const { return p; }
};

struct object : handle {
  object() = default;
  struct steal_t {};
  struct borrow_t {};
  object(PyObject *q, steal_t) : handle(q) {}
  object(PyObject *q, borrow_t) : handle(q) { Py_XINCREF(q); }
  object(const object &o) : handle(o.p) { Py_XINCREF(p); }
  object(object &&o) noexcept : handle(o.p) { o.p = nullptr; }
  object &operator=(object o) noexcept {
    std::swap(p, o.p);
    return *this;
  }
  ~object() { Py_XDECREF(p); }
  PyObject *release() {
    PyObject *q = p;
    p = nullptr;
    return q;
  }
};
inline object steal(PyObject *q) {
  if (!q)
    throw python_error();
  return object(q, object::steal_t{});
}
inline object borrow(PyObject *q) { return object(q, object::borrow_t{}); }
inline object getattr(PyObject *o, const char *name) {
  return steal(PyObject_GetAttrString(o, name));
}
inline object import_(const char *name) {
  return steal(PyImport_ImportModule(name));
}

struct tuple : object {
  tuple() = default;
  explicit tuple(object o) : object(std::move(o)) {}
  size_t size() const { return static_cast<size_t>(PyTuple_Size(p)); }
  object operator[](size_t i) const {
    return borrow(PyTuple_GetItem(p, static_cast<Py_ssize_t>(i)));
  }
};

// ------------------------------------------------------- registered classes
struct instance {
  PyObject_HEAD void *value;
  bool constructed;
};

struct type_record {
  PyTypeObject *type = nullptr;
  size_t size = 0, align = 0;
  void (*destroy)(void *) = nullptr;
};
inline std::map<std::type_index, type_record *> &types() {
  static std::map<std::type_index, type_record *> t;
  return t;
}
inline std::map<PyTypeObject *, type_record *> &types_by_py() {
  static std::map<PyTypeObject *, type_record *> t;
  return t;
}
inline std::map<std::type_index, PyObject *> &enums() {
  static std::map<std::type_index, PyObject *> t;
  return t;
}
inline type_record *record_of(PyTypeObject *t) {
  for (; t; t = t->tp_base) {
    auto it = types_by_py().find(t);
    if (it != types_by_py().end())
      return it->second;
  }
  return nullptr;
}
inline PyObject *inst_new(PyTypeObject *type, PyObject *, PyObject *) {
  auto *rec = record_of(type);
  auto *self = reinterpret_cast<instance *>(type->tp_alloc(type, 0));
  if (!self)
    return nullptr;
  self->value = ::operator new(rec->size, std::align_val_t(rec->align));
  std::memset(self->value, 0, rec->size);
  self->constructed = false;
  return reinterpret_cast<PyObject *>(self);
}
inline void inst_dealloc(PyObject *o) {
  auto *self = reinterpret_cast<instance *>(o);
  PyTypeObject *t = Py_TYPE(o);
  auto *rec = record_of(t);
  if (self->value) {
    if (self->constructed)
      rec->destroy(self->value);
    ::operator delete(self->value, std::align_val_t(rec->align));
  }
  t->tp_free(o);
  Py_DECREF(t);
}

// ----------------------------------------------------------------- casters
// caster<T>::load(PyObject*)      -> holder convertible to T / T& / const T&
// caster<T>::cast(T, parent)      -> new reference
template <class T, class = void> struct caster {
  using record_t = T;
  // registered class
  static T &load(PyObject *o) {
    auto it = types().find(std::type_index(typeid(T)));
    if (it == types().end() ||
        !PyObject_TypeCheck(o, it->second->type))
      throw next_overload();
    auto *inst = reinterpret_cast<instance *>(o);
    if (!inst->constructed)
      throw next_overload();
    return *static_cast<T *>(inst->value);
  }
  template <class U> static PyObject *cast(U &&v) {
    auto it = types().find(std::type_index(typeid(T)));
    if (it == types().end())
      throw cast_error();
    PyObject *o = inst_new(it->second->type, nullptr, nullptr);
    if (!o)
      throw python_error();
    auto *inst = reinterpret_cast<instance *>(o);
    new (inst->value) T(std::forward<U>(v));
    inst->constructed = true;
    return o;
  }
};

template <class T>
struct caster<T, std::enable_if_t<std::is_integral_v<T> &&
                                  !std::is_same_v<T, bool>>> {
  static T load(PyObject *o) {
    if (PyFloat_Check(o))
      throw next_overload();
    PyObject *idx = PyNumber_Index(o);
    if (!idx) {
      PyErr_Clear();
      throw next_overload();
    }
    object guard = steal(idx);
    if constexpr (std::is_signed_v<T>) {
      long long v = PyLong_AsLongLong(idx);
      if (v == -1 && PyErr_Occurred()) {
        PyErr_Clear();
        throw next_overload();
      }
      if (static_cast<long long>(static_cast<T>(v)) != v)
        throw next_overload();
      return static_cast<T>(v);
    } else {
      unsigned long long v = PyLong_AsUnsignedLongLong(idx);
      if (v == static_cast<unsigned long long>(-1) && PyErr_Occurred()) {
        PyErr_Clear();
        throw next_overload();
      }
      if (static_cast<unsigned long long>(static_cast<T>(v)) != v)
        throw next_overload();
      return static_cast<T>(v);
    }
  }
  static PyObject *cast(T v) {
    if constexpr (std::is_signed_v<T>)
      return PyLong_FromLongLong(v);
    else
      return PyLong_FromUnsignedLongLong(v);
  }
};

template <> struct caster<bool> {
  static bool load(PyObject *o) {
    if (o == Py_True)
      return true;
    if (o == Py_False)
      return false;
    // numpy.bool_
    if (std::strcmp(Py_TYPE(o)->tp_name, "numpy.bool") == 0 ||
        std::strcmp(Py_TYPE(o)->tp_name, "numpy.bool_") == 0)
      return PyObject_IsTrue(o) == 1;
    throw next_overload();
  }
  static PyObject *cast(bool v) { return PyBool_FromLong(v); }
};

template <class T>
struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static T load(PyObject *o) {
    double d = PyFloat_AsDouble(o);
    if (d == -1.0 && PyErr_Occurred()) {
      PyErr_Clear();
      throw next_overload();
    }
    return static_cast<T>(d);
  }
  static PyObject *cast(T v) { return PyFloat_FromDouble(v); }
};

template <class T> struct caster<T, std::enable_if_t<std::is_enum_v<T>>> {
  static T load(PyObject *o) {
    auto it = enums().find(std::type_index(typeid(T)));
    if (it == enums().end() || PyObject_IsInstance(o, it->second) != 1) {
      PyErr_Clear();
      throw next_overload();
    }
    object v = getattr(o, "value");
    return static_cast<T>(PyLong_AsLongLong(v.ptr()));
  }
  static PyObject *cast(T v) {
    auto it = enums().find(std::type_index(typeid(T)));
    if (it == enums().end())
      throw cast_error();
    PyObject *r = PyObject_CallFunction(it->second, "L",
                                        static_cast<long long>(v));
    if (!r)
      throw python_error();
    return r;
  }
};

template <> struct caster<std::string> {
  static std::string load(PyObject *o) {
    if (!PyUnicode_Check(o))
      throw next_overload();
    return PyUnicode_AsUTF8(o);
  }
  static PyObject *cast(const std::string &v) {
    return PyUnicode_FromStringAndSize(v.data(),
                                       static_cast<Py_ssize_t>(v.size()));
  }
};

template <> struct caster<nanobind::tuple> {
  static nanobind::tuple load(PyObject *o) {
    if (!PyTuple_Check(o))
      throw next_overload();
    return nanobind::tuple(borrow(o));
  }
  static PyObject *cast(nanobind::tuple t) { return t.release(); }
};
template <> struct caster<nanobind::object> {
  static nanobind::object load(PyObject *o) { return borrow(o); }
  static PyObject *cast(nanobind::object t) { return t.release(); }
};

template <class A> struct caster<std::vector<A>> {
  static std::vector<A> load(PyObject *o) {
    if (PyUnicode_Check(o) || PyBytes_Check(o))
      throw next_overload();
    PyObject *seq = PySequence_Check(o)
                        ? PySequence_Fast(o, "sequence expected")
                        : nullptr;
    if (!seq) {
      PyErr_Clear();
      throw next_overload();
    }
    object guard = steal(seq);
    Py_ssize_t n = PySequence_Fast_GET_SIZE(seq);
    std::vector<A> r;
    r.reserve(static_cast<size_t>(n));
    for (Py_ssize_t i = 0; i < n; i++)
      r.push_back(caster<A>::load(PySequence_Fast_GET_ITEM(seq, i)));
    return r;
  }
  static PyObject *cast(const std::vector<A> &v) {
    object l = steal(PyList_New(static_cast<Py_ssize_t>(v.size())));
    for (size_t i = 0; i < v.size(); i++)
      PyList_SET_ITEM(l.ptr(), static_cast<Py_ssize_t>(i),
                      caster<A>::cast(v[i]));
    return l.release();
  }
};

template <class A, class B> struct caster<std::pair<A, B>> {
  static std::pair<A, B> load(PyObject *o) {
    PyObject *seq = PySequence_Check(o) ? PySequence_Fast(o, "") : nullptr;
    if (!seq) {
      PyErr_Clear();
      throw next_overload();
    }
    object guard = steal(seq);
    if (PySequence_Fast_GET_SIZE(seq) != 2)
      throw next_overload();
    return {caster<A>::load(PySequence_Fast_GET_ITEM(seq, 0)),
            caster<B>::load(PySequence_Fast_GET_ITEM(seq, 1))};
  }
  static PyObject *cast(const std::pair<A, B> &v) {
    object a = steal(caster<A>::cast(v.first));
    object b = steal(caster<B>::cast(v.second));
    return PyTuple_Pack(2, a.ptr(), b.ptr());
  }
};

template <class... Ts> struct caster<std::tuple<Ts...>> {
  template <size_t... Is>
  static std::tuple<Ts...> load_(PyObject *seq, std::index_sequence<Is...>) {
    return std::tuple<Ts...>(
        caster<std::decay_t<Ts>>::load(PySequence_Fast_GET_ITEM(seq, Is))...);
  }
  static std::tuple<Ts...> load(PyObject *o) {
    PyObject *seq = PySequence_Check(o) ? PySequence_Fast(o, "") : nullptr;
    if (!seq) {
      PyErr_Clear();
      throw next_overload();
    }
    object guard = steal(seq);
    if (PySequence_Fast_GET_SIZE(seq) != static_cast<Py_ssize_t>(sizeof...(Ts)))
      throw next_overload();
    return load_(seq, std::index_sequence_for<Ts...>{});
  }
  template <size_t... Is>
  static PyObject *cast_(const std::tuple<Ts...> &v,
                         std::index_sequence<Is...>) {
    object t = steal(PyTuple_New(sizeof...(Ts)));
    (PyTuple_SET_ITEM(t.ptr(), Is,
                      caster<std::decay_t<Ts>>::cast(std::get<Is>(v))),
     ...);
    return t.release();
  }
  static PyObject *cast(const std::tuple<Ts...> &v) {
    return cast_(v, std::index_sequence_for<Ts...>{});
  }
};

template <class K, class V> struct caster<std::map<K, V>> {
  static PyObject *cast(const std::map<K, V> &m) {
    object d = steal(PyDict_New());
    for (const auto &kv : m) {
      object k = steal(caster<K>::cast(kv.first));
      object v = steal(caster<V>::cast(kv.second));
      if (PyDict_SetItem(d.ptr(), k.ptr(), v.ptr()))
        throw python_error();
    }
    return d.release();
  }
};

template <class T> using intrinsic = std::remove_cv_t<std::remove_reference_t<T>>;

template <class T> T cast(const handle &h) {
  try {
    return caster<intrinsic<T>>::load(h.ptr());
  } catch (next_overload &) {
    throw cast_error();
  }
}
template <class... Args> tuple make_tuple(Args &&...args) {
  return tuple(steal(caster<std::tuple<intrinsic<Args>...>>::cast(
      std::tuple<intrinsic<Args>...>(std::forward<Args>(args)...))));
}

// --------------------------------------------------------------- functions
struct arg_v;
struct arg {
  const char *name;
  explicit arg(const char *n) : name(n) {}
  template <class T> arg_v operator=(T &&v) const;
};
struct arg_v {
  const char *name;
  object value;
};
template <class T> inline arg_v arg::operator=(T &&v) const {
  return arg_v{name, steal(caster<intrinsic<T>>::cast(std::forward<T>(v)))};
}

struct arg_spec {
  std::string name;
  object def;
  bool has_def = false;
};
inline void add_spec(std::vector<arg_spec> &s, const arg &a) {
  s.push_back({a.name, object(), false});
}
inline void add_spec(std::vector<arg_spec> &s, const arg_v &a) {
  s.push_back({a.name, a.value, true});
}
inline void add_spec(std::vector<arg_spec> &, const char *) {}

struct overload {
  std::vector<arg_spec> specs; // excludes self
  size_t nargs = 0;            // excludes self
  std::function<PyObject *(PyObject *, PyObject *const *)> call;
};
struct func {
  std::string name;
  bool is_method = false;
  std::vector<overload> overloads;
};

inline PyObject *translate() {
  try {
    throw;
  } catch (python_error &) {
    if (!PyErr_Occurred())
      PyErr_SetString(PyExc_RuntimeError, "unknown python error");
  } catch (cast_error &e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  } catch (std::bad_alloc &) {
    PyErr_NoMemory();
  } catch (std::invalid_argument &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (std::domain_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (std::length_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (std::out_of_range &e) {
    PyErr_SetString(PyExc_IndexError, e.what());
  } catch (std::range_error &e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (std::overflow_error &e) {
    PyErr_SetString(PyExc_OverflowError, e.what());
  } catch (std::exception &e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  }
  return nullptr;
}

inline PyObject *dispatch(PyObject *capsule, PyObject *args, PyObject *kwargs) {
  auto *f = static_cast<func *>(PyCapsule_GetPointer(capsule, "nbshim"));
  Py_ssize_t npos = PyTuple_GET_SIZE(args);
  Py_ssize_t off = f->is_method ? 1 : 0;
  if (npos < off) {
    PyErr_SetString(PyExc_TypeError, "missing self");
    return nullptr;
  }
  PyObject *self = off ? PyTuple_GET_ITEM(args, 0) : nullptr;
  for (auto &ov : f->overloads) {
    if (static_cast<size_t>(npos - off) > ov.nargs)
      continue;
    std::vector<PyObject *> vals(ov.nargs, nullptr);
    for (Py_ssize_t i = off; i < npos; i++)
      vals[static_cast<size_t>(i - off)] = PyTuple_GET_ITEM(args, i);
    bool ok = true;
    size_t used = 0;
    for (size_t i = 0; i < ov.nargs && ok; i++) {
      PyObject *kw = nullptr;
      if (kwargs && i < ov.specs.size())
        kw = PyDict_GetItemString(kwargs, ov.specs[i].name.c_str());
      if (kw) {
        if (vals[i])
          ok = false;
        vals[i] = kw;
        used++;
      }
      if (!vals[i]) {
        if (i < ov.specs.size() && ov.specs[i].has_def)
          vals[i] = ov.specs[i].def.ptr();
        else
          ok = false;
      }
    }
    if (!ok || (kwargs && used != static_cast<size_t>(PyDict_Size(kwargs))))
      continue;
    try {
      return ov.call(self, vals.data());
    } catch (next_overload &) {
      continue;
    } catch (...) {
      return translate();
    }
  }
  PyErr_Format(PyExc_TypeError,
               "%s(): incompatible function arguments (nanobind stand-in).",
               f->name.c_str());
  return nullptr;
}

inline PyMethodDef *method_def(const std::string &name) {
  auto *d = new PyMethodDef();
  d->ml_name = strdup(name.c_str());
  d->ml_meth = reinterpret_cast<PyCFunction>(
      reinterpret_cast<void (*)()>(&dispatch));
  d->ml_flags = METH_VARARGS | METH_KEYWORDS;
  return d;
}
inline object make_callable(func *f) {
  object cap = steal(PyCapsule_New(f, "nbshim", nullptr));
  object fn = steal(PyCFunction_New(method_def(f->name), cap.ptr()));
  if (f->is_method)
    return steal(PyInstanceMethod_New(fn.ptr()));
  return fn;
}

template <class T> struct holder {
  using load_t = decltype(caster<intrinsic<T>>::load(nullptr));
};

template <class H> H &unwrap(H &h) { return h; }
template <class T> struct ref_holder; // eigen/dense.h
template <class T> auto &unwrap(ref_holder<T> &h) { return h.ref; }

template <class R, class... A> struct invoker {
  // Arguments are loaded into a tuple of whatever the casters return
  template <class F, size_t... Is>
  static PyObject *run(F &fn, PyObject *self, PyObject *const *vals,
                       std::index_sequence<Is...>) {
    (void)vals;
    std::tuple<typename holder<A>::load_t...> loaded{
        caster<intrinsic<A>>::load(vals[Is])...};
    if constexpr (std::is_void_v<R>) {
      fn(static_cast<A>(unwrap(std::get<Is>(loaded)))...);
      Py_RETURN_NONE;
    } else if constexpr (std::is_lvalue_reference_v<R>) {
      // builder style `T&` return: give back self if it is the same object
      intrinsic<R> &r = fn(static_cast<A>(unwrap(std::get<Is>(loaded)))...);
      if (self) {
        auto *rec = record_of(Py_TYPE(self));
        if (rec && reinterpret_cast<instance *>(self)->value ==
                       static_cast<const void *>(&r)) {
          Py_INCREF(self);
          return self;
        }
      }
      return caster<intrinsic<R>>::cast(r);
    } else {
      return caster<intrinsic<R>>::cast(
          fn(static_cast<A>(unwrap(std::get<Is>(loaded)))...));
    }
  }
};

template <class R, class... A>
overload make_overload(std::function<R(A...)> fn) {
  overload ov;
  ov.nargs = sizeof...(A);
  ov.call = [fn](PyObject *, PyObject *const *vals) mutable {
    return invoker<R, A...>::run(fn, nullptr, vals,
                                 std::index_sequence_for<A...>{});
  };
  return ov;
}
// method: first parameter is self
template <class R, class C, class... A>
overload make_method(std::function<R(C &, A...)> fn, bool raw_self) {
  overload ov;
  ov.nargs = sizeof...(A);
  ov.call = [fn, raw_self](PyObject *self, PyObject *const *vals) {
    using CT = intrinsic<C>;
    CT *obj;
    if (raw_self) {
      auto *inst = reinterpret_cast<instance *>(self);
      obj = static_cast<CT *>(inst->value);
    } else {
      obj = &caster<CT>::load(self);
    }
    auto bound = [&](A... a) -> R { return fn(*obj, static_cast<A>(a)...); };
    PyObject *r = invoker<R, A...>::run(bound, self, vals,
                                        std::index_sequence_for<A...>{});
    if (raw_self)
      reinterpret_cast<instance *>(self)->constructed = true;
    return r;
  };
  return ov;
}

template <class F> struct sig;
template <class L> struct sig : sig<decltype(&L::operator())> {};
template <class C, class R, class... A> struct sig<R (C::*)(A...) const> {
  using type = std::function<R(A...)>;
};
template <class C, class R, class... A> struct sig<R (C::*)(A...)> {
  using type = std::function<R(A...)>;
};

template <class... T> struct init {};

// ----------------------------------------------------------------- module_
struct attr_proxy {
  object owner;
  std::string name;
  template <class T> attr_proxy &operator=(T &&v) {
    object o = steal(caster<intrinsic<T>>::cast(std::forward<T>(v)));
    if (PyObject_SetAttrString(owner.ptr(), name.c_str(), o.ptr()))
      throw python_error();
    return *this;
  }
};

struct module_ : object {
  module_() = default;
  explicit module_(object o) : object(std::move(o)) {}
  attr_proxy doc() { return attr_proxy{borrow(p), "__doc__"}; }
  attr_proxy attr(const char *n) { return attr_proxy{borrow(p), n}; }
  template <class R, class... A, class... Extra>
  module_ &def(const char *name, R (*fn)(A...), const Extra &...extra) {
    return add(name, make_overload(std::function<R(A...)>(fn)), extra...);
  }
  template <class L, class... Extra,
            class = std::enable_if_t<std::is_class_v<L>>>
  module_ &def(const char *name, L fn, const Extra &...extra) {
    return add(name, make_overload(typename sig<L>::type(fn)), extra...);
  }
  template <class... Extra>
  module_ &add(const char *name, overload ov, const Extra &...extra) {
    (add_spec(ov.specs, extra), ...);
    auto *f = new func();
    f->name = name;
    f->overloads.push_back(std::move(ov));
    object fn = make_callable(f);
    if (PyObject_SetAttrString(p, name, fn.ptr()))
      throw python_error();
    return *this;
  }
};

template <class T> struct view_of; // specialised in eigen/dense.h
template <class T> struct can_view : std::false_type {};

template <class T> struct class_ {
  type_record *rec;
  std::map<std::string, func *> funcs;
  class_(module_ &m, const char *name) {
    rec = new type_record();
    rec->size = sizeof(T);
    rec->align = alignof(T) < 64 ? 64 : alignof(T);
    rec->destroy = [](void *p) { static_cast<T *>(p)->~T(); };
    object modname = getattr(m.ptr(), "__name__");
    std::string full = std::string(PyUnicode_AsUTF8(modname.ptr())) + "." + name;
    PyType_Slot slots[] = {
        {Py_tp_new, reinterpret_cast<void *>(&inst_new)},
        {Py_tp_dealloc, reinterpret_cast<void *>(&inst_dealloc)},
        {0, nullptr}};
    PyType_Spec spec = {strdup(full.c_str()), sizeof(instance), 0,
                        Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
    object t = steal(PyType_FromSpec(&spec));
    rec->type = reinterpret_cast<PyTypeObject *>(t.ptr());
    types()[std::type_index(typeid(T))] = rec;
    types_by_py()[rec->type] = rec;
    if (PyObject_SetAttrString(m.ptr(), name, t.ptr()))
      throw python_error();
    t.release();
  }
  PyObject *type_obj() { return reinterpret_cast<PyObject *>(rec->type); }

  template <class... Extra>
  class_ &add(const char *name, overload ov, const Extra &...extra) {
    (add_spec(ov.specs, extra), ...);
    func *&f = funcs[name];
    if (!f) {
      f = new func();
      f->name = name;
      f->is_method = true;
      object fn = make_callable(f);
      if (PyObject_SetAttrString(type_obj(), name, fn.ptr()))
        throw python_error();
    }
    f->overloads.push_back(std::move(ov));
    return *this;
  }

  template <class... A, class... Extra>
  class_ &def(init<A...>, const Extra &...extra) {
    overload ov;
    ov.nargs = sizeof...(A);
    ov.call = [](PyObject *self, PyObject *const *vals) -> PyObject * {
      auto *inst = reinterpret_cast<instance *>(self);
      auto build = [&](A... a) -> void {
        if (inst->constructed) {
          static_cast<T *>(inst->value)->~T();
          inst->constructed = false;
        }
        new (inst->value) T(static_cast<A>(a)...);
        inst->constructed = true;
      };
      return invoker<void, A...>::run(build, self, vals,
                                      std::index_sequence_for<A...>{});
    };
    return add("__init__", std::move(ov), extra...);
  }
  static bool raw(const char *name) {
    return std::strcmp(name, "__setstate__") == 0;
  }
  template <class R, class C, class... A, class... Extra>
  class_ &def(const char *name, R (C::*fn)(A...), const Extra &...extra) {
    std::function<R(T &, A...)> g = [fn](T &o, A... a) -> R {
      return (o.*fn)(static_cast<A>(a)...);
    };
    return add(name, make_method<R, T, A...>(g, false), extra...);
  }
  template <class R, class C, class... A, class... Extra>
  class_ &def(const char *name, R (C::*fn)(A...) const, const Extra &...extra) {
    std::function<R(T &, A...)> g = [fn](T &o, A... a) -> R {
      return (o.*fn)(static_cast<A>(a)...);
    };
    return add(name, make_method<R, T, A...>(g, false), extra...);
  }
  template <class R, class C, class... A>
  overload from_function(std::function<R(C, A...)> fn, bool raw_self) {
    std::function<R(T &, A...)> g = [fn](T &o, A... a) -> R {
      return fn(o, static_cast<A>(a)...);
    };
    return make_method<R, T, A...>(g, raw_self);
  }
  template <class L, class... Extra,
            class = std::enable_if_t<std::is_class_v<L>>>
  class_ &def(const char *name, L fn, const Extra &...extra) {
    return add(name,
               from_function(typename sig<L>::type(fn), raw(name)), extra...);
  }
  template <class V> class_ &def_rw(const char *name, V T::*member) {
    auto *getter = new func();
    getter->name = name;
    getter->is_method = false;
    overload g;
    g.nargs = 1;
    g.call = [member](PyObject *, PyObject *const *vals) -> PyObject * {
      T &o = caster<T>::load(vals[0]);
      if constexpr (can_view<V>::value)
        return view_of<V>::make(o.*member, vals[0]);
      else
        return caster<V>::cast(o.*member);
    };
    getter->overloads.push_back(g);
    auto *setter = new func();
    setter->name = name;
    setter->is_method = false;
    overload s;
    s.nargs = 2;
    s.call = [member](PyObject *, PyObject *const *vals) -> PyObject * {
      T &o = caster<T>::load(vals[0]);
      o.*member = caster<V>::load(vals[1]);
      Py_RETURN_NONE;
    };
    setter->overloads.push_back(s);
    object go = make_callable(getter), so = make_callable(setter);
    object prop = steal(PyObject_CallFunctionObjArgs(
        reinterpret_cast<PyObject *>(&PyProperty_Type), go.ptr(), so.ptr(),
        nullptr));
    if (PyObject_SetAttrString(type_obj(), name, prop.ptr()))
      throw python_error();
    return *this;
  }
};

template <class E> struct enum_ {
  module_ &m;
  std::string name;
  object members;
  enum_(module_ &mod, const char *n)
      : m(mod), name(n), members(steal(PyList_New(0))) {
    rebuild();
  }
  void rebuild() {
    object mod = import_("enum");
    object cls = getattr(mod.ptr(), "Enum");
    object modname = getattr(m.ptr(), "__name__");
    object kw = steal(PyDict_New());
    PyDict_SetItemString(kw.ptr(), "module", modname.ptr());
    object args = steal(Py_BuildValue("(sO)", name.c_str(), members.ptr()));
    object e = steal(PyObject_Call(cls.ptr(), args.ptr(), kw.ptr()));
    if (PyObject_SetAttrString(m.ptr(), name.c_str(), e.ptr()))
      throw python_error();
    enums()[std::type_index(typeid(E))] = e.release();
  }
  enum_ &value(const char *n, E v) {
    object t = steal(Py_BuildValue("(sL)", n, static_cast<long long>(v)));
    PyList_Append(members.ptr(), t.ptr());
    rebuild();
    return *this;
  }
};

} // namespace nanobind

#define NB_MODULE(modname, var)                                                \
  static void nbshim_init_##modname(nanobind::module_ &var);                   \
  static PyModuleDef nbshim_def_##modname = {PyModuleDef_HEAD_INIT,            \
                                             "irspack." #modname,              \
                                             nullptr,                          \
                                             -1,                               \
                                             nullptr,                          \
                                             nullptr,                          \
                                             nullptr,                          \
                                             nullptr,                          \
                                             nullptr};                         \
  extern "C" __attribute__((visibility("default"))) PyObject *                 \
      PyInit_##modname() {                                                     \
    PyObject *m = PyModule_Create(&nbshim_def_##modname);                      \
    if (!m)                                                                    \
      return nullptr;                                                          \
    try {                                                                      \
      nanobind::module_ mod(nanobind::borrow(m));                              \
      const char *pn = NBSHIM_FULLNAME;                                        \
      PyObject *nm = PyUnicode_FromString(pn);                                 \
      PyObject_SetAttrString(m, "__name__", nm);                               \
      Py_DECREF(nm);                                                           \
      nbshim_init_##modname(mod);                                              \
    } catch (...) {                                                            \
      return nanobind::translate();                                            \
    }                                                                          \
    return m;                                                                  \
  }                                                                            \
  static void nbshim_init_##modname(nanobind::module_ &var)
