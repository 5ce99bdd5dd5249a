/* A small stand-in for pybind11 (which is not installed in this sandbox): just
 * the part pctsp/pypctsp.cpp uses, with the same conversions and the same
 * exception translation (std::exception -> RuntimeError, bad args -> TypeError). */
#ifndef VERIF_MINI_PYBIND11_H
#define VERIF_MINI_PYBIND11_H
#include <Python.h>
#include <filesystem>
#include <list>
#include <map>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <set>
#include <utility>
#include <vector>
namespace pybind11 {
struct error_already_set : std::exception { const char* what() const noexcept override { return "python error"; } };
struct cast_error : std::runtime_error { using std::runtime_error::runtime_error; };
class handle {
protected:
   PyObject* p = nullptr;
public:
   handle() {}
   handle(PyObject* q) : p(q) {}
   PyObject* ptr() const { return p; }
};
struct attr_proxy;
class object : public handle {
public:
   object() {}
   object(const object& o) : handle(o.p) { Py_XINCREF(p); }
   object(object&& o) noexcept : handle(o.p) { o.p = nullptr; }
   object& operator=(const object& o) { Py_XINCREF(o.p); Py_XDECREF(p); p = o.p; return *this; }
   ~object() { Py_XDECREF(p); }
   static object steal(PyObject* q) { object o; o.p = q; return o; }
   static object borrow(PyObject* q) { Py_XINCREF(q); return steal(q); }
   PyObject* release() { PyObject* q = p; p = nullptr; return q; }
   object attr(const char* name) const { PyObject* q = PyObject_GetAttrString(p, name); if (!q) throw error_already_set(); return steal(q); }
   template <typename... A> object operator()(A&&... args) const;
};
template <typename T> T reinterpret_borrow(handle h) { return object::borrow(h.ptr()); }
template <typename T> T reinterpret_steal(handle h) { return object::steal(h.ptr()); }
struct bool_ : object { bool_(bool b) { p = b ? Py_True : Py_False; Py_INCREF(p); } };
struct module_ : object {
   module_() {}
   module_(PyObject* q) { p = q; }
   static module_ import(const char* n) { PyObject* q = PyImport_ImportModule(n); if (!q) throw error_already_set(); return module_(q); }
   template <typename R, typename... A, typename... X> module_& def(const char* name, R (*f)(A...), const X&...);
};
typedef module_ module;

/* ---- conversions ---- */
template <typename T, typename E = void> struct conv;
template <> struct conv<bool> {
   static bool from(PyObject* o) { if (o == Py_True) return true; if (o == Py_False || o == Py_None) return false; int r = (Py_TYPE(o)->tp_as_number && Py_TYPE(o)->tp_as_number->nb_bool) ? PyObject_IsTrue(o) : -1; if (r < 0) { PyErr_Clear(); throw cast_error("bool expected"); } return r != 0; }
   static PyObject* to(bool b) { return PyBool_FromLong(b); }
};
template <typename T> struct conv<T, std::enable_if_t<std::is_integral_v<T>>> {
   static T from(PyObject* o) {
      if (PyFloat_Check(o)) throw cast_error("integer expected");
      PyObject* i = PyNumber_Index(o);
      if (!i) { PyErr_Clear(); throw cast_error("integer expected"); }
      if constexpr (std::is_signed_v<T>) {
         long long v = PyLong_AsLongLong(i); Py_DECREF(i);
         if (PyErr_Occurred() || v < (long long)std::numeric_limits<T>::min() || v > (long long)std::numeric_limits<T>::max()) { PyErr_Clear(); throw cast_error("integer out of range"); }
         return (T)v;
      } else {
         unsigned long long v = PyLong_AsUnsignedLongLong(i); Py_DECREF(i);
         if (PyErr_Occurred() || v > (unsigned long long)std::numeric_limits<T>::max()) { PyErr_Clear(); throw cast_error("integer out of range"); }
         return (T)v;
      }
   }
   static PyObject* to(T v) { if constexpr (std::is_signed_v<T>) return PyLong_FromLongLong(v); else return PyLong_FromUnsignedLongLong(v); }
};
template <typename T> struct conv<T, std::enable_if_t<std::is_floating_point_v<T>>> {
   static T from(PyObject* o) { double d = PyFloat_AsDouble(o); if (PyErr_Occurred()) { PyErr_Clear(); throw cast_error("float expected"); } return (T)d; }
   static PyObject* to(T v) { return PyFloat_FromDouble(v); }
};
template <> struct conv<std::string> {
   static std::string from(PyObject* o) { Py_ssize_t n; const char* s = PyUnicode_Check(o) ? PyUnicode_AsUTF8AndSize(o, &n) : nullptr; if (!s) { PyErr_Clear(); throw cast_error("str expected"); } return std::string(s, n); }
   static PyObject* to(const std::string& s) { return PyUnicode_FromStringAndSize(s.data(), s.size()); }
};
template <> struct conv<std::filesystem::path> {
   static std::filesystem::path from(PyObject* o) { PyObject* b = nullptr; if (!PyUnicode_FSConverter(o, &b)) { PyErr_Clear(); throw cast_error("path expected"); } std::filesystem::path p(PyBytes_AS_STRING(b)); Py_DECREF(b); return p; }
   static PyObject* to(const std::filesystem::path& s) { return PyUnicode_FromString(s.c_str()); }
};
template <> struct conv<object> { static object from(PyObject* o) { return object::borrow(o); } static PyObject* to(object o) { return o.release(); } };
template <typename A, typename B> struct conv<std::pair<A, B>> {
   static std::pair<A, B> from(PyObject* o) {
      if (!PySequence_Check(o) || PySequence_Size(o) != 2) { PyErr_Clear(); throw cast_error("pair expected"); }
      object a = object::steal(PySequence_GetItem(o, 0)), b = object::steal(PySequence_GetItem(o, 1));
      return {conv<A>::from(a.ptr()), conv<B>::from(b.ptr())};
   }
   static PyObject* to(const std::pair<A, B>& v) { PyObject* t = PyTuple_New(2); PyTuple_SET_ITEM(t, 0, conv<A>::to(v.first)); PyTuple_SET_ITEM(t, 1, conv<B>::to(v.second)); return t; }
};
template <typename S> struct conv_seq {
   typedef typename S::value_type V;
   static S from(PyObject* o) {
      if (!PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o)) throw cast_error("sequence expected");
      S s; Py_ssize_t n = PySequence_Size(o);
      for (Py_ssize_t i = 0; i < n; i++) { object it = object::steal(PySequence_GetItem(o, i)); if (!it.ptr()) throw error_already_set(); s.push_back(conv<V>::from(it.ptr())); }
      return s;
   }
   static PyObject* to(const S& s) { PyObject* l = PyList_New(0); for (const auto& v : s) { PyObject* q = conv<V>::to(v); PyList_Append(l, q); Py_DECREF(q); } return l; }
};
template <typename T> struct conv<std::vector<T>> : conv_seq<std::vector<T>> {};
template <typename T> struct conv<std::list<T>> : conv_seq<std::list<T>> {};
template <typename M> struct conv_map {
   typedef typename M::key_type K; typedef typename M::mapped_type V;
   static M from(PyObject* o) {
      if (!PyDict_Check(o)) throw cast_error("dict expected");
      M m; PyObject *k, *v; Py_ssize_t pos = 0;
      while (PyDict_Next(o, &pos, &k, &v)) m.emplace(conv<K>::from(k), conv<V>::from(v));
      return m;
   }
   static PyObject* to(const M& m) { PyObject* d = PyDict_New(); for (const auto& e : m) { PyObject* k = conv<K>::to(e.first); PyObject* v = conv<V>::to(e.second); PyDict_SetItem(d, k, v); Py_DECREF(k); Py_DECREF(v); } return d; }
};
template <typename K, typename V> struct conv<std::map<K, V>> : conv_map<std::map<K, V>> {};
template <typename K, typename V> struct conv<std::unordered_map<K, V>> : conv_map<std::unordered_map<K, V>> {};

template <typename... A> object object::operator()(A&&... args) const {
   PyObject* t = PyTuple_New(sizeof...(A));
   Py_ssize_t i = 0;
   auto put = [&](auto&& a) {
      typedef std::decay_t<decltype(a)> D;
      PyObject* q;
      if constexpr (std::is_base_of_v<object, D>) { q = a.ptr(); Py_INCREF(q); } else q = conv<D>::to(a);
      PyTuple_SET_ITEM(t, i++, q);
   };
   (put(args), ...);
   PyObject* r = PyObject_CallObject(p, t);
   Py_DECREF(t);
   if (!r) throw error_already_set();
   return steal(r);
}
struct fn_base { PyMethodDef d; std::string name; virtual ~fn_base() {} virtual PyObject* call(PyObject* args) = 0; };
template <typename R, typename... A> struct fn : fn_base {
   R (*f)(A...);
   template <size_t... I> PyObject* run(PyObject* args, std::index_sequence<I...>) {
      std::tuple<std::decay_t<A>...> t{conv<std::decay_t<A>>::from(PyTuple_GET_ITEM(args, I))...};
      if constexpr (std::is_void_v<R>) { f(static_cast<A>(std::get<I>(t))...); Py_RETURN_NONE; }
      else return conv<std::decay_t<R>>::to(f(static_cast<A>(std::get<I>(t))...));
   }
   PyObject* call(PyObject* args) override {
      if (PyTuple_GET_SIZE(args) != (Py_ssize_t)sizeof...(A)) { PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments", name.c_str()); return nullptr; }
      try { return run(args, std::index_sequence_for<A...>{}); }
      catch (error_already_set&) { return nullptr; }
      catch (cast_error& e) { PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments: %s", name.c_str(), e.what()); }
      catch (std::out_of_range& e) { PyErr_SetString(PyExc_IndexError, e.what()); }
      catch (std::invalid_argument& e) { PyErr_SetString(PyExc_ValueError, e.what()); }
      catch (std::exception& e) { PyErr_SetString(PyExc_RuntimeError, e.what()); }
      catch (...) { PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!"); }
      return nullptr;
   }
};
inline PyObject* fn_dispatch(PyObject* self, PyObject* args) { return reinterpret_cast<fn_base*>(PyCapsule_GetPointer(self, "verif.fn"))->call(args); }
template <typename R, typename... A, typename... X> module_& module_::def(const char* name, R (*f)(A...), const X&...) {
   auto* b = new fn<R, A...>(); b->f = f; b->name = name;
   b->d = PyMethodDef{b->name.c_str(), fn_dispatch, METH_VARARGS, nullptr};
   PyObject* cap = PyCapsule_New(static_cast<fn_base*>(b), "verif.fn", nullptr);
   PyModule_AddObject(p, name, PyCFunction_New(&b->d, cap));
   return *this;
}
} /* namespace pybind11 */
#define PYBIND11_MODULE(NAME, VAR) \
   static void verif_init_##NAME(pybind11::module_&); \
   static PyModuleDef verif_def_##NAME = {PyModuleDef_HEAD_INIT, #NAME, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
   extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##NAME() { PyObject* m = PyModule_Create(&verif_def_##NAME); if (!m) return nullptr; Py_INCREF(m); pybind11::module_ mod(m); verif_init_##NAME(mod); return m; } \
   static void verif_init_##NAME(pybind11::module_& VAR)
#endif
