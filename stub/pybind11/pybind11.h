// Recording stand-in for pybind11: executing the generated module writes one
// JSON line per registration to the file named by $VERIF_LOG.
#pragma once
#include <verif.h>

#include <cstddef>
#include <cstdio>
#include <cstring>
#include <memory>
#include <new>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>

inline int verif_exc_marker = 0;
#define PyExc_Warning (&verif_exc_marker)
inline int PyErr_WarnFormat(int *, int, const char *, ...) { return 0; }

namespace pybind11 {

namespace recorder {
struct Node {
  std::string path;
};
inline std::string quote(const char *text) {
  std::string out = "\"";
  for (const char *p = text ? text : ""; *p; ++p) {
    unsigned char c = static_cast<unsigned char>(*p);
    if (c == '"' || c == '\\') {
      out += '\\';
      out += *p;
    } else if (c < 0x20) {
      char buf[8];
      std::snprintf(buf, sizeof buf, "\\u%04x", c);
      out += buf;
    } else
      out += *p;
  }
  return out + "\"";
}
inline std::string quote(const std::string &text) { return quote(text.c_str()); }
void log(const std::string &line);
Node *registerType(const std::type_info &type, const std::string &path);
Node *lookupType(const std::type_info &type);
const void *noFunction();
std::string fullName(const std::type_info &type); // with all template arguments

template <class T> std::string typeName() {
  std::string name = __PRETTY_FUNCTION__;
  std::size_t begin = name.find("T = ") + 4;
  std::size_t end = name.rfind("; std::string = ");
  if (end == std::string::npos)
    end = name.rfind(']');
  return name.substr(begin, end - begin);
}

template <class T> std::string repr(const T &value) {
  if constexpr (std::is_same_v<T, bool>)
    return value ? "true" : "false";
  else if constexpr (std::is_enum_v<T>)
    return std::to_string(static_cast<long long>(value));
  else if constexpr (std::is_integral_v<T>)
    return std::to_string(value);
  else if constexpr (std::is_floating_point_v<T>) {
    char buf[64];
    std::snprintf(buf, sizeof buf, "%g", static_cast<double>(value));
    return buf;
  } else if constexpr (std::is_convertible_v<T, const char *>) {
    const char *text = value;
    return text ? std::string("'") + text + "'" : std::string("null");
  } else if constexpr (std::is_convertible_v<const T &, std::string>)
    return "'" + static_cast<std::string>(value) + "'";
  else if constexpr (std::is_null_pointer_v<T>)
    return "null";
  else if constexpr (std::is_pointer_v<T>)
    return value ? "ptr" : "null";
  else if constexpr (std::is_trivially_copyable_v<T> &&
                     sizeof(T) >= sizeof(int)) {
    int head;
    std::memcpy(&head, &value, sizeof head);
    return typeName<T>() + "#" + std::to_string(head);
  } else
    return typeName<T>();
}
// What matters for defaults is also the kind of Python object they turn into.
template <class T> std::string argRepr(const T &value) {
  std::string text = repr(value);
  if constexpr (std::is_enum_v<T>)
    return typeName<T>() + "#" + text;
  else if constexpr (std::is_same_v<T, char> || std::is_same_v<T, wchar_t> ||
                     std::is_same_v<T, char16_t> || std::is_same_v<T, char32_t>)
    return "c" + text;
  else if constexpr (std::is_floating_point_v<T>)
    return text.find_first_of(".en") == std::string::npos ? text + ".0" : text;
  return text;
}
} // namespace recorder

struct none;
class handle {
public:
  recorder::Node *node = nullptr;
  handle() = default;
  handle(recorder::Node *node) : node(node) {}
  explicit operator bool() const { return node != nullptr; }
  std::string path() const { return node ? node->path : std::string("None"); }
  struct accessor;
  accessor attr(const char *name) const;
};
class object : public handle {
public:
  using handle::handle;
};
struct none : object {};
struct args : object {};
struct kwargs : object {};
struct dict : object {};
struct list : object {};
struct tuple : object {};
struct str : object {};
template <class T> T reinterpret_borrow(handle h) { return T(h.node); }

struct handle::accessor {
  std::string path;
  std::string name;
  template <class T> void operator=(const T &value) {
    std::string text;
    if constexpr (std::is_base_of_v<handle, T>)
      text = "obj:" + value.path();
    else
      text = recorder::repr(value);
    recorder::log("{\"e\":\"attr\",\"c\":" + recorder::quote(path) +
                  ",\"n\":" + recorder::quote(name) +
                  ",\"v\":" + recorder::quote(text) + "}");
  }
};
inline handle::accessor handle::attr(const char *name) const {
  return {path(), name};
}

namespace detail {
inline handle get_type_handle(const std::type_info &type, bool) {
  return handle(recorder::lookupType(type));
}
inline void clean_type_id(std::string &) {}
} // namespace detail

enum class return_value_policy : unsigned char {
  automatic = 0,
  automatic_reference,
  take_ownership,
  copy,
  move,
  reference,
  reference_internal
};
struct is_operator {};
struct arithmetic {};
struct dynamic_attr {};
struct module_local {
  module_local(bool = true) {}
};
struct buffer_protocol {};
struct kw_only {};
struct pos_only {};
struct is_final {};
struct name_ {};
template <std::size_t Nurse, std::size_t Patient> struct keep_alive {};
template <class... Ts> struct call_guard {};

struct arg;
struct arg_v {
  std::string name;
  bool noconvert_ = false;
  bool none_ = true;
  std::string value;
};
struct arg {
  std::string name;
  bool noconvert_ = false;
  bool none_ = true;
  constexpr explicit arg(const char *name = nullptr) : name(name ? name : "") {}
  template <class T> arg_v operator=(T &&value) const {
    return {name, noconvert_, none_,
            recorder::argRepr<std::remove_cv_t<std::remove_reference_t<T>>>(
                value)};
  }
  arg &noconvert(bool flag = true) {
    noconvert_ = flag;
    return *this;
  }
  arg &none(bool flag = true) {
    none_ = flag;
    return *this;
  }
};

namespace recorder {
struct Extras {
  std::string doc, args, policy, keep, flags;
  bool has_doc = false;
  void add(const char *text) {
    doc = text;
    has_doc = true;
  }
  void addArg(const std::string &name, bool noconvert, bool none,
              const std::string *value) {
    if (!args.empty())
      args += ",";
    args += "{\"n\":" + quote(name) +
            ",\"nc\":" + (noconvert ? "true" : "false") +
            ",\"none\":" + (none ? "true" : "false") + ",\"d\":" +
            (value ? quote(*value) : std::string("null")) + "}";
  }
  void add(const arg &a) { addArg(a.name, a.noconvert_, a.none_, nullptr); }
  void add(const arg_v &a) { addArg(a.name, a.noconvert_, a.none_, &a.value); }
  void add(return_value_policy value) {
    static const char *const names[] = {
        "automatic", "automatic_reference", "take_ownership",    "copy",
        "move",      "reference",           "reference_internal"};
    policy = names[static_cast<unsigned>(value)];
  }
  template <std::size_t N, std::size_t P> void add(keep_alive<N, P>) {
    if (!keep.empty())
      keep += ",";
    keep += "[" + std::to_string(N) + "," + std::to_string(P) + "]";
  }
  void flag(const char *text) {
    if (!flags.empty())
      flags += ",";
    flags += quote(text);
  }
  void add(is_operator) { flag("is_operator"); }
  void add(arithmetic) { flag("arithmetic"); }
  void add(dynamic_attr) { flag("dynamic_attr"); }
  void add(module_local) { flag("module_local"); }
  void add(buffer_protocol) { flag("buffer_protocol"); }
  void add(kw_only) { flag("kw_only"); }
  void add(pos_only) { flag("pos_only"); }
  void add(is_final) { flag("is_final"); }
  template <class... Ts> void add(call_guard<Ts...>) { flag("call_guard"); }
  std::string json() const {
    return ",\"doc\":" + quote(doc) + ",\"args\":[" + args +
           "],\"policy\":" + quote(policy) + ",\"keep\":[" + keep +
           "],\"flags\":[" + flags + "]";
  }
};
template <class... Ts> std::string extras(const Ts &...items) {
  Extras result;
  (result.add(items), ...);
  return result.json();
}

// Argument values: the k-th one is filled with the byte k * 0x11.
template <class T> T &freshValue(int k);
template <class T> T &fresh(int k) {
  T &result = freshValue<T>(k);
  if constexpr (!std::is_function_v<T>) {
    verif::g_args[k] = &reinterpret_cast<const volatile char &>(result);
    verif::g_sizes[k] = sizeof(result);
  }
  return result;
}
template <class T> T &freshValue(int k) {
  using U = std::remove_cv_t<T>;
  if constexpr (std::is_same_v<U, bool>) {
    static bool value = true;
    value = true;
    return value;
  } else if constexpr (std::is_pointer_v<U>) {
    using P = std::remove_cv_t<std::remove_pointer_t<U>>;
    static std::remove_cv_t<U> value;
    if constexpr (std::is_same_v<P, char>)
      value = "text";
    else if constexpr (std::is_void_v<P> || std::is_function_v<P>)
      value = nullptr;
    else
      value = &fresh<P>(k);
    return const_cast<T &>(value);
  } else if constexpr (std::is_function_v<U>) {
    return *static_cast<U *>(nullptr);
  } else if constexpr (std::is_trivially_copyable_v<U> &&
                       !std::is_polymorphic_v<U>) {
    alignas(U) static unsigned char storage[16][sizeof(U)];
    std::memset(storage[k], k * 0x11, sizeof(U));
    return reinterpret_cast<T &>(storage[k]);
  } else if constexpr (std::is_default_constructible_v<U> &&
                       !std::is_abstract_v<U>) {
    U *value = nullptr;
    verif::Hit saved = verif::g_hit;
    value = new U();
    verif::g_hit = saved;
    return *value;
  } else {
    alignas(U) static unsigned char storage[16][sizeof(U)] = {};
    return reinterpret_cast<T &>(storage[k]);
  }
}
template <class A> decltype(auto) argument(int k) {
  using T = std::remove_reference_t<A>;
  if constexpr (std::is_lvalue_reference_v<A>)
    return static_cast<A>(fresh<T>(k));
  else
    return static_cast<T &&>(const_cast<T &>(fresh<T>(k)));
}

template <class C> constexpr bool canInvokeOn() {
  return !std::is_polymorphic_v<C> ||
         (std::is_default_constructible_v<C> && !std::is_abstract_v<C>);
}

inline std::string hitJson(bool called) {
  std::string out = ",\"hit\":";
  if (!called)
    return out + "-1,\"ops\":[]";
  out += std::to_string(verif::g_hit.id) + ",\"ops\":[";
  for (int i = 0; i < verif::g_hit.count; ++i) {
    if (i)
      out += ",";
    out += std::to_string(verif::g_hit.ops[i]);
  }
  return out + "]";
}

template <class F, std::size_t... I, class... A>
void invokeWith(F &&f, int first, std::index_sequence<I...>,
                std::tuple<A...> *) {
  f(argument<A>(first + static_cast<int>(I))...);
}
inline void reset() { verif::g_hit = {0, 0, {}}; }

// Which function does calling this binding reach?
template <class T, class R, class... A> std::string probe(R (*f)(A...)) {
  reset();
  invokeWith(f, 1, std::index_sequence_for<A...>(),
             static_cast<std::tuple<A...> *>(nullptr));
  return hitJson(true);
}
template <class T, class R, class C, class... A>
std::string probe(R (C::*f)(A...)) {
  reset();
  if constexpr (!canInvokeOn<T>())
    return hitJson(false);
  else {
    T &self = fresh<T>(1);
    reset();
    invokeWith([&](auto &&...a) { (self.*f)(static_cast<decltype(a)>(a)...); },
               2, std::index_sequence_for<A...>(),
               static_cast<std::tuple<A...> *>(nullptr));
    return hitJson(true);
  }
}
template <class T, class R, class C, class... A>
std::string probe(R (C::*f)(A...) const) {
  reset();
  if constexpr (!canInvokeOn<T>())
    return hitJson(false);
  else {
    const T &self = fresh<T>(1);
    reset();
    invokeWith([&](auto &&...a) { (self.*f)(static_cast<decltype(a)>(a)...); },
               2, std::index_sequence_for<A...>(),
               static_cast<std::tuple<A...> *>(nullptr));
    return hitJson(true);
  }
}
template <class T, class R, class C, class... A>
std::string probe(R (C::*f)(A...) noexcept) {
  return probe<T>(static_cast<R (C::*)(A...)>(f));
}
template <class T, class R, class C, class... A>
std::string probe(R (C::*f)(A...) const noexcept) {
  return probe<T>(static_cast<R (C::*)(A...) const>(f));
}
template <class T, class R, class C, class... A>
std::string probe(R (C::*f)(A...) &) {
  return probe<T>(reinterpret_cast<R (C::*)(A...)>(f));
}
template <class T, class R, class C, class... A>
std::string probe(R (C::*f)(A...) const &) {
  return probe<T>(reinterpret_cast<R (C::*)(A...) const>(f));
}
template <class L, class R, class C, class... A>
R (*lambdaPointer(const L &lambda, R (C::*)(A...) const))(A...) {
  return lambda;
}
template <class T, class L, class = decltype(&L::operator())>
std::string probe(const L &lambda) {
  return probe<T>(lambdaPointer(lambda, &L::operator()));
}

// Is f bound as something called on an instance of T?
template <class F> std::string signature() {
  return ",\"sig\":" + quote(typeName<F>());
}
} // namespace recorder

template <class... Args> struct init_t {};
template <class... Args> init_t<Args...> init() { return {}; }
template <class... Args> init_t<Args...> init_alias() { return {}; }

template <class... Args> struct overload_cast_impl {
  template <class R>
  constexpr auto operator()(R (*pf)(Args...)) const noexcept -> decltype(pf) {
    return pf;
  }
  template <class R, class C>
  constexpr auto operator()(R (C::*pmf)(Args...),
                            std::false_type = {}) const noexcept
      -> decltype(pmf) {
    return pmf;
  }
  template <class R, class C>
  constexpr auto operator()(R (C::*pmf)(Args...) const,
                            std::true_type) const noexcept -> decltype(pmf) {
    return pmf;
  }
};
template <class... Args>
static constexpr overload_cast_impl<Args...> overload_cast = {};
static constexpr auto const_ = std::true_type{};

class module_ : public object {
public:
  using object::object;
  using type = void;
  module_ def_submodule(const char *name, const char *doc = "") {
    recorder::log("{\"e\":\"module\",\"c\":" + recorder::quote(path()) +
                  ",\"n\":" + recorder::quote(name) +
                  ",\"doc\":" + recorder::quote(doc) + "}");
    return module_(new recorder::Node{path() + "." + name});
  }
  template <class F, class... Extra>
  module_ &def(const char *name, F &&f, const Extra &...extra) {
    recorder::log("{\"e\":\"def\",\"c\":" + recorder::quote(path()) +
                  ",\"n\":" + recorder::quote(name) +
                  recorder::probe<void>(f) +
                  recorder::signature<std::decay_t<F>>() +
                  recorder::extras(extra...) + "}");
    return *this;
  }
};
using module = module_;

template <class From, class To> void implicitly_convertible() {
  recorder::log("{\"e\":\"implicit\",\"c\":\"\",\"from\":" +
                recorder::quote(recorder::typeName<From>()) +
                ",\"to\":" + recorder::quote(recorder::typeName<To>()) + "}");
}

template <class T, class... Options> class class_ : public object {
  template <class O> static void option(std::string &bases, std::string &rest) {
    if constexpr (std::is_class_v<O>) {
      if constexpr (std::is_base_of_v<O, T> && !std::is_same_v<O, T>) {
        if (!bases.empty())
          bases += ",";
        bases += recorder::quote(recorder::fullName(typeid(O)));
        if (!recorder::lookupType(typeid(O)))
          bases += ",\"!unregistered\"";
        return;
      }
    }
    if (!rest.empty())
      rest += ",";
    rest += recorder::quote(recorder::typeName<O>());
  }
  std::string head(const char *event, const char *name) const {
    return std::string("{\"e\":\"") + event +
           "\",\"c\":" + recorder::quote(path()) +
           ",\"n\":" + recorder::quote(name);
  }

public:
  using type = T;
  template <class... Extra>
  class_(handle scope, const char *name, const Extra &...extra) {
    std::string bases, rest;
    (option<Options>(bases, rest), ...);
    std::string path = scope.path() + "." + name;
    recorder::log("{\"e\":\"class\",\"c\":" + recorder::quote(scope.path()) +
                  ",\"n\":" + recorder::quote(name) +
                  ",\"t\":" + recorder::quote(recorder::fullName(typeid(T))) +
                  ",\"bases\":[" + bases + "],\"opts\":[" + rest + "]" +
                  recorder::extras(extra...) + "}");
    node = recorder::registerType(typeid(T), path);
  }
  template <class F, class... Extra>
  class_ &def(const char *name, F &&f, const Extra &...extra) {
    recorder::log(head("def", name) + recorder::probe<T>(f) +
                  recorder::signature<std::decay_t<F>>() +
                  recorder::extras(extra...) + "}");
    return *this;
  }
  template <class F, class... Extra>
  class_ &def_static(const char *name, F &&f, const Extra &...extra) {
    static_assert(!std::is_member_function_pointer_v<std::decay_t<F>>);
    recorder::log(head("def_static", name) + recorder::probe<T>(f) +
                  recorder::signature<std::decay_t<F>>() +
                  recorder::extras(extra...) + "}");
    return *this;
  }
  template <class... Args, class... Extra>
  class_ &def(const init_t<Args...> &, const Extra &...extra) {
    std::string sig;
    ((sig += (sig.empty() ? "" : ",") + recorder::typeName<Args>()), ...);
    recorder::reset();
    alignas(T) static unsigned char storage[sizeof(T)];
    recorder::invokeWith(
        [&](auto &&...a) { new (storage) T(static_cast<decltype(a)>(a)...); },
        2, std::index_sequence_for<Args...>(),
        static_cast<std::tuple<Args...> *>(nullptr));
    recorder::log(head("init", "__init__") + recorder::hitJson(true) +
                  ",\"t\":" + recorder::quote(recorder::fullName(typeid(T))) +
                  ",\"sig\":" + recorder::quote(sig) +
                  recorder::extras(extra...) + "}");
    return *this;
  }
  template <class C, class D>
  std::string fieldJson(D C::*member, const char *event, const char *name) {
    std::string value = "?";
    if constexpr (std::is_default_constructible_v<T> &&
                  !std::is_abstract_v<T>) {
      T *instance = new T();
      const T &self = *instance;
      value = recorder::repr<std::remove_cv_t<D>>(self.*member);
    }
    return head(event, name) + ",\"v\":" + recorder::quote(value) +
           ",\"t\":" + recorder::quote(recorder::typeName<D>());
  }
  template <class C, class D, class... Extra>
  class_ &def_readwrite(const char *name, D C::*member,
                        const Extra &...extra) {
    static_assert(std::is_same_v<C, T> || std::is_base_of_v<C, T>);
    static_assert(!std::is_const_v<D>);
    recorder::log(fieldJson(member, "readwrite", name) +
                  recorder::extras(extra...) + "}");
    return *this;
  }
  template <class C, class D, class... Extra>
  class_ &def_readonly(const char *name, D C::*member, const Extra &...extra) {
    static_assert(std::is_same_v<C, T> || std::is_base_of_v<C, T>);
    recorder::log(fieldJson(member, "readonly", name) +
                  recorder::extras(extra...) + "}");
    return *this;
  }
  template <class D, class... Extra>
  class_ &def_readwrite_static(const char *name, D *member,
                               const Extra &...extra) {
    static_assert(!std::is_const_v<D>);
    recorder::log(head("readwrite_static", name) + ",\"v\":" +
                  recorder::quote(recorder::repr<std::remove_cv_t<D>>(*member)) +
                  ",\"t\":" + recorder::quote(recorder::typeName<D>()) +
                  recorder::extras(extra...) + "}");
    return *this;
  }
  template <class D, class... Extra>
  class_ &def_readonly_static(const char *name, const D *member,
                              const Extra &...extra) {
    recorder::log(head("readonly_static", name) + ",\"v\":" +
                  recorder::quote(recorder::repr<std::remove_cv_t<D>>(*member)) +
                  ",\"t\":" + recorder::quote(recorder::typeName<const D>()) +
                  recorder::extras(extra...) + "}");
    return *this;
  }
  template <class G, class... Extra>
  class_ &def_property_readonly(const char *name, const G &getter,
                                const Extra &...extra) {
    recorder::log(head("property", name) + ",\"get\":{" +
                  recorder::probe<T>(getter).substr(1) + "},\"set\":null" +
                  recorder::extras(extra...) + "}");
    return *this;
  }
  template <class G, class S, class... Extra>
  class_ &def_property(const char *name, const G &getter, const S &setter,
                       const Extra &...extra) {
    std::string get = recorder::probe<T>(getter).substr(1);
    std::string set = recorder::probe<T>(setter).substr(1);
    recorder::log(head("property", name) + ",\"get\":{" + get +
                  "},\"set\":{" + set + "}" + recorder::extras(extra...) + "}");
    return *this;
  }
};

template <class T> class enum_ : public object {
public:
  using type = T;
  template <class... Extra>
  enum_(handle scope, const char *name, const Extra &...extra) {
    static_assert(std::is_enum_v<T>);
    std::string path = scope.path() + "." + name;
    recorder::log("{\"e\":\"enum\",\"c\":" + recorder::quote(scope.path()) +
                  ",\"n\":" + recorder::quote(name) +
                  ",\"t\":" + recorder::quote(recorder::fullName(typeid(T))) +
                  recorder::extras(extra...) + "}");
    node = recorder::registerType(typeid(T), path);
  }
  enum_ &value(const char *name, T value, const char *doc = nullptr) {
    recorder::log("{\"e\":\"value\",\"c\":" + recorder::quote(path()) +
                  ",\"n\":" + recorder::quote(name) + ",\"v\":\"" +
                  recorder::repr(value) + "\",\"doc\":" + recorder::quote(doc) +
                  "}");
    return *this;
  }
  enum_ &export_values() {
    recorder::log("{\"e\":\"export_values\",\"c\":" +
                  recorder::quote(path()) + ",\"n\":\"\"}");
    return *this;
  }
};

namespace recorder {
struct ModuleInit {
  ModuleInit(const char *name, void (*init)(module_ &));
};
} // namespace recorder
} // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                        \
  static void verif_init_##name(::pybind11::module_ &);                        \
  static ::pybind11::recorder::ModuleInit verif_module_##name(                 \
      #name, &verif_init_##name);                                              \
  void verif_init_##name(::pybind11::module_ &variable)
