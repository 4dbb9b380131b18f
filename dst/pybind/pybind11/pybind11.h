// A stand-in for pybind11: records what a module registers and lets the harness call it.
#pragma once
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace sim {
inline bool gil = true;
inline void rec(const std::string &what, const std::string &a, const std::string &b = "", long c = 0, int d = 0) {
  std::printf("%s\t%s\t%s\t%ld\t%d\n", what.c_str(), a.c_str(), b.c_str(), c, d);
}
// Set by the functions of the generated header when they run.
inline std::string ran;
inline bool ranWithGil = true;
struct Mod {
  const char *name;
  void (*init)(void *);
};
inline std::vector<Mod> mods;
struct Reg {
  Reg(const char *n, void (*i)(void *)) { mods.push_back({n, i}); }
};
}  // namespace sim

namespace pybind11 {
struct gil_scoped_release {
  gil_scoped_release() { sim::gil = false; }
  ~gil_scoped_release() { sim::gil = true; }
};
struct gil_scoped_acquire {};
template <class... G>
struct call_guard {};
struct module_local {
  module_local(bool = true) {}
};
template <class... A>
struct init_t {};
template <class... A>
init_t<A...> init() {
  return {};
}
struct arg {
  arg(const char *) {}
};
enum class return_value_policy { automatic, reference, copy, move, take_ownership };

template <class... A>
struct overload_cast_t {
  template <class R>
  constexpr auto operator()(R (*p)(A...)) const {
    return p;
  }
};
template <class... A>
inline constexpr overload_cast_t<A...> overload_cast{};

namespace detail {
template <class X>
struct guards {
  using type = std::tuple<>;
};
template <class... G>
struct guards<call_guard<G...>> {
  using type = std::tuple<G...>;
};
template <class... X>
using all = decltype(std::tuple_cat(std::declval<typename guards<std::decay_t<X>>::type>()...));

template <class T>
struct box {
  std::decay_t<T> v{};
};
// Calls f as the interpreter would, with default values, and says which function ran and
// whether the interpreter lock was held.
template <class... X, class R, class... A>
void probe(const std::string &mod, const char *name, R (*f)(A...)) {
  sim::ran.clear();
  {
    all<X...> g;
    (void)g;
    std::tuple<box<A>...> args;
    std::apply([&](auto &...b) { (void)f(static_cast<A>(b.v)...); }, args);
  }
  sim::rec("def", mod, std::string(name) + "=" + sim::ran, sizeof...(A), sim::ranWithGil);
}
template <class... X, class F>
void probe(const std::string &mod, const char *name, const F &f) {
  probe<X...>(mod, name, +f);
}
}  // namespace detail

class module_ {
 public:
  std::string name;
  template <class F, class... X>
  module_ &def(const char *n, F f, const X &...) {
    detail::probe<X...>(name, n, f);
    return *this;
  }
  const char *&doc() {
    static const char *d;
    return d;
  }
};
using module = module_;

template <class T, class... O>
class class_ {
  std::string name, mod;

 public:
  template <class... X>
  class_(module_ &m, const char *n, const X &...) : name(n), mod(m.name) {
    sim::rec("class", mod, name, 0, (std::is_same_v<std::decay_t<X>, module_local> || ... || false));
  }
  template <class... A, class... X>
  class_ &def(const init_t<A...> &, const X &...) {
    static_assert(std::is_constructible_v<T, A...>, "init");
    sim::rec("init", mod, name, sizeof...(A));
    return *this;
  }
  template <class F, class... X>
  class_ &def(const char *n, F, const X &...) {
    sim::rec("method", mod, name + "." + n);
    return *this;
  }
  template <class C, class M, class... X>
  class_ &def_readwrite(const char *n, M C::*p, const X &...) {
    static_assert(std::is_base_of_v<C, T>, "member of another class");
    static T t{};
    sim::rec("field", mod, name + "." + n, (char *)&(t.*p) - (char *)&t, 1);
    return *this;
  }
  template <class C, class M, class... X>
  class_ &def_readonly(const char *n, M C::*p, const X &...) {
    static T t{};
    sim::rec("field", mod, name + "." + n, (char *)&(t.*p) - (char *)&t, 0);
    return *this;
  }
};
}  // namespace pybind11

#define PYBIND11_MODULE(name, variable)                                 \
  static void simInit_##name(pybind11::module_ &);                      \
  static sim::Reg simReg_##name(#name, [](void *p) { simInit_##name(*(pybind11::module_ *)p); }); \
  static void simInit_##name([[maybe_unused]] pybind11::module_ &variable)

int main() {
  for (auto &m : sim::mods) {
    pybind11::module_ x{m.name};
    sim::rec("module", m.name);
    m.init(&x);
  }
}
