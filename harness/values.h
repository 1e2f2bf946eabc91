// Values of several kinds carried by results: numbers, nothing, references and
// move-only objects that are counted, so that a lost or leaked one shows.
#pragma once
#include <atomic>
#include <cstdlib>
#include <string>
#include <type_traits>
#include <utility>
namespace val {
inline std::atomic<int> live{0};
struct Counted {                       // copyable, counted
  Counted() { ++live; }
  Counted(const Counted &) noexcept { ++live; }
  Counted(Counted &&) noexcept { ++live; }
  Counted &operator=(const Counted &) = default;
  ~Counted() { --live; }
};
struct Tr {                            // move-only, counted, poisoned when moved from or destroyed
  int v; unsigned magic = 0x600dcafe;
  explicit Tr(int v) : v(v) { ++live; }
  Tr(Tr &&o) noexcept : v(o.v) { if (o.magic != 0x600dcafe) v = -77; o.v = -99; ++live; }
  Tr &operator=(Tr &&o) noexcept { v = o.magic == 0x600dcafe ? o.v : -77; if (this != &o) o.v = -99; return *this; }
  ~Tr() { if (magic != 0x600dcafe) abort(); magic = 0xdead; --live; }
};
struct Boom { int v; Counted c{}; };   // the exception thrown
inline int cells[256];
inline std::string sval(int v) { return "val" + std::to_string(v); }
inline std::string show(const int &x) { return &x >= cells && &x < cells + 256 ? sval((int)(&x - cells)) : sval(x); }
inline std::string show(const Tr &t) { return sval(t.magic == 0x600dcafe ? t.v : -66); }
// a value of type T that stands for v
template <class T> T mk(int v) {
  if constexpr (std::is_void_v<T>) return;
  else if constexpr (std::is_reference_v<T>) return cells[v];
  else return T(v);
}
template <class T> std::string sof(int v) { return sval(std::is_void_v<T> ? 0 : v); }
// what obtaining a T gave
template <class T, class F> std::string got(F f) {
  try {
    if constexpr (std::is_void_v<T>) { f(); return "val0"; }
    else if constexpr (std::is_reference_v<T>) { T x = f(); return &x >= cells && &x < cells + 256 ? show(x) : "badref"; }
    else { decltype(auto) x = f(); return show(x); }
  }
  catch (const Boom &b) { return "exc" + std::to_string(b.v); }
  catch (const std::exception &) { return "broken"; }
}
template <class T> struct Ty { using type = T; };
// call f with the type numbered n
template <class F> auto with(int n, F f) {
  switch (n % 4) {
    case 0: return f(Ty<int>{});
    case 1: return f(Ty<void>{});
    case 2: return f(Ty<Tr>{});
    default: return f(Ty<int &>{});
  }
}
} // namespace val
