#pragma once
#include "../nanobind.h"
#include <variant>
namespace nanobind {
template <class... Ts> struct caster<std::variant<Ts...>> {
  using V = std::variant<Ts...>;
  template <class T> static bool try_one(PyObject *o, V &v, bool exact) {
    if (exact && !exact_kind<T>::match(o))
      return false;
    try {
      v = caster<T>::load(o);
      return true;
    } catch (next_overload &) {
      return false;
    }
  }
  static V load(PyObject *o) {
    V v;
    // nanobind first tries every alternative without implicit conversion
    if ((try_one<Ts>(o, v, true) || ...))
      return v;
    if ((try_one<Ts>(o, v, false) || ...))
      return v;
    throw next_overload();
  }
};
} // namespace nanobind
