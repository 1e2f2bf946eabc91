// The packed form of call arguments and results: values packed one after
// another are unpacked by the same types; cut short, followed by nothing, or
// replaced by arbitrary bytes.
#include "driver.h"
#include "plain/net/rpc/packer.h"
#include "plain/net/rpc/unpacker.h"
#include "plain/net/rpc/utility.h"
#include <array>
#include <bit>
#include <algorithm>
#include <sys/resource.h>
namespace rpc = plain::net::rpc;
using drv::Rng;
using V = std::vector<uint8_t>;

struct Inner {
  uint64_t a{}; double b{};
  template <class T> void pack(T &p) { p(a, b); }
};
struct Obj {
  int32_t x{}; std::string s; Inner in; std::vector<int16_t> l;
  template <class T> void pack(T &p) { p(x, s, in, l); }
};
using TP = std::chrono::time_point<std::chrono::steady_clock>;

static std::string list(const V &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string((int)v[i]);
  return s + "]";
}
// ---- a value, drawn
static uint64_t bits64(Rng &g) {
  switch (g.below(6)) {
    case 0: return g.below(30);
    case 1: return (uint64_t)-(int64_t)g.below(300);
    case 2: { uint64_t x = 1ull << g.below(64); return x + g.below(3) - 1; }
    case 3: { uint64_t x = -(1ull << g.below(64)); return x + g.below(3) - 1; }
    case 4: return g.next() >> g.below(64);
    default: return g.next();
  }
}
template <class T> struct Gen;
template <class T> requires std::is_integral_v<T> struct Gen<T> { static T get(Rng &g) { return (T)bits64(g); } };
template <> struct Gen<bool> { static bool get(Rng &g) { return g.chance(1, 2); } };
template <> struct Gen<float> { static float get(Rng &g) {
  switch (g.below(6)) {
    case 0: return (float)(int64_t)bits64(g);
    case 1: return g.pick(std::vector<float>{0.0f, -0.0f, 0.5f, -0.5f, 1e-30f, 1e30f, -1e30f, 1e-42f, INFINITY, -INFINITY, 9223372036854775808.0f, -9223372036854775808.0f, 0.1f, 255.0f, -255.0f, 3.4028234e38f});
    case 2: return (float)g.range(-300, 300) / 4;
    default: { float f = std::bit_cast<float>((uint32_t)g.next()); return f != f ? 1.5f : f; } } } };
template <> struct Gen<double> { static double get(Rng &g) {
  switch (g.below(6)) {
    case 0: return (double)(int64_t)bits64(g);
    case 1: return g.pick(std::vector<double>{0.0, -0.0, 0.5, -0.5, 1e-300, 1e300, -1e300, 5e-324, INFINITY, -INFINITY, 9223372036854775808.0, -9223372036854775808.0, 0.1, 16777217.0, -16777219.0, 9007199254740993.0});
    case 2: return (double)g.range(-300, 300) / 4;
    default: { double f = std::bit_cast<double>(g.next()); return f != f ? 1.5 : f; } } } };
static int len(Rng &g) { return g.chance(1, 6) ? 0 : g.chance(1, 10) ? g.pick(std::vector<int>{15, 16, 17, 31, 32, 33}) : g.chance(1, 40) ? g.pick(std::vector<int>{254, 255, 256, 257}) : g.range(1, 6); }
static int slen(Rng &g) { return g.chance(1, 60) ? g.pick(std::vector<int>{65534, 65535, 65536, 66000}) : g.chance(1, 4) ? g.pick(std::vector<int>{0, 31, 32, 33, 127, 128, 254, 255, 256, 257, 1000}) : g.range(0, 9); }
template <> struct Gen<std::string> { static std::string get(Rng &g) { std::string s; for (int n = slen(g), c = g.below(251); n--;) { s += (char)c; c = g.chance(1, 40) ? g.below(256) : (c + 1) % 251; } return s; } };
template <> struct Gen<V> { static V get(Rng &g) { auto s = Gen<std::string>::get(g); return V(s.begin(), s.end()); } };
template <class T> struct Gen<std::vector<T>> { static std::vector<T> get(Rng &g) { std::vector<T> v; for (int n = len(g); n--;) v.push_back(Gen<T>::get(g)); return v; } };
template <class T> struct Gen<std::list<T>> { static std::list<T> get(Rng &g) { std::list<T> v; for (int n = len(g); n--;) v.push_back(Gen<T>::get(g)); return v; } };
template <class T, size_t N> struct Gen<std::array<T, N>> { static std::array<T, N> get(Rng &g) { std::array<T, N> v; for (auto &x : v) x = Gen<T>::get(g); return v; } };
template <class K, class T> struct Gen<std::map<K, T>> { static std::map<K, T> get(Rng &g) { std::map<K, T> v; for (int n = len(g); n--;) v[Gen<K>::get(g)] = Gen<T>::get(g); return v; } };
template <class K, class T> struct Gen<std::unordered_map<K, T>> { static auto get(Rng &g) { std::unordered_map<K, T> v; for (int n = len(g); n--;) v[Gen<K>::get(g)] = Gen<T>::get(g); return v; } };
template <class... T> struct Gen<std::tuple<T...>> { static std::tuple<T...> get(Rng &g) { return std::tuple<T...>{Gen<T>::get(g)...}; } };
template <> struct Gen<Inner> { static Inner get(Rng &g) { return {Gen<uint64_t>::get(g), Gen<double>::get(g)}; } };
template <> struct Gen<Obj> { static Obj get(Rng &g) { return {Gen<int32_t>::get(g), Gen<std::string>::get(g), Gen<Inner>::get(g), Gen<std::vector<int16_t>>::get(g)}; } };
template <> struct Gen<TP> { static TP get(Rng &g) { return TP(TP::duration(Gen<int64_t>::get(g))); } };
template <> struct Gen<std::nullptr_t> { static std::nullptr_t get(Rng &) { return nullptr; } };
// ---- its canonical text
static void canon(std::string &o, const std::string &s) {   // short form: length, and runs
  o += '"'; o += std::to_string(s.size());
  for (size_t i = 0; i < s.size();) {
    size_t j = i + 1;
    while (j < s.size() && (unsigned char)s[i] < 251 && (unsigned char)s[j] == ((unsigned char)s[j - 1] + 1) % 251) ++j;
    o += ':' + std::to_string((int)(unsigned char)s[i]) + '+' + std::to_string(j - i);
    i = j;
  }
  o += '"';
}
template <class T> requires std::is_arithmetic_v<T> static void canon(std::string &o, T x) {
  char b[40];
  if constexpr (std::is_same_v<T, float>) snprintf(b, sizeof b, "f%08x", std::bit_cast<uint32_t>(x));
  else if constexpr (std::is_same_v<T, double>) snprintf(b, sizeof b, "d%016llx", (unsigned long long)std::bit_cast<uint64_t>(x));
  else if constexpr (std::is_signed_v<T>) snprintf(b, sizeof b, "%lld", (long long)x);
  else snprintf(b, sizeof b, "%llu", (unsigned long long)x);
  o += b;
}
static void canon(std::string &o, std::nullptr_t) { o += "nil"; }
static void canon(std::string &o, const V &v) { canon(o, std::string(v.begin(), v.end())); }
static void canon(std::string &o, const TP &t) { canon(o, (int64_t)t.time_since_epoch().count()); }
static void canon(std::string &o, const Inner &x) { o += '{'; canon(o, x.a); o += ','; canon(o, x.b); o += '}'; }
template <class C> static void canon_seq(std::string &o, const C &v);
template <class T> static void canon(std::string &o, const std::vector<T> &v) { canon_seq(o, v); }
template <class T> static void canon(std::string &o, const std::list<T> &v) { canon_seq(o, v); }
template <class T, size_t N> static void canon(std::string &o, const std::array<T, N> &v) { canon_seq(o, v); }
template <class K, class T> static void canon(std::string &o, const std::map<K, T> &v) { o += '{'; for (auto &[a, b] : v) { canon(o, a); o += '='; canon(o, b); o += ' '; } o += '}'; }
template <class K, class T> static void canon(std::string &o, const std::unordered_map<K, T> &v) { canon(o, std::map<K, T>(v.begin(), v.end())); }
template <class... T> static void canon(std::string &o, const std::tuple<T...> &v) { o += '('; std::apply([&](auto &...x) { ((canon(o, x), o += ' '), ...); }, v); o += ')'; }
static void canon(std::string &o, const Obj &x);
template <class C> static void canon_seq(std::string &o, const C &v) { o += '['; for (auto &x : v) { canon(o, x); o += ' '; } o += ']'; }
static void canon(std::string &o, const Obj &x) { o += '<'; canon(o, x.x); canon(o, x.s); canon(o, x.in); canon(o, x.l); o += '>'; }
// long texts are shortened to their length and a 64-bit hash
template <class T> static std::string text(const T &x) {
  std::string o;
  canon(o, x);
  if (o.size() > 80) { uint64_t h = 1469598103934665603ull; for (unsigned char c : o) h = (h ^ c) * 1099511628211ull; char b[60]; snprintf(b, sizeof b, "#%zu-%016llx", o.size(), (unsigned long long)h); o = b; }
  std::string q = "\"";
  for (char c : o) { if (c == '"') q += '\''; else q += c; }
  return q + "\"";
}
template <class T> static std::string value(const T &x) {
  if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) {
    V b; uint64_t u = std::is_signed_v<T> ? (uint64_t)(int64_t)x : (uint64_t)x;
    for (int i = 7; i >= 0; --i) b.push_back(u >> (8 * i));
    return list(b);
  } else return text(x);
}
// ---- one kind of value
struct Kind {
  const char *name; bool integer;
  std::string (*pack)(rpc::Packer &, Rng &);
  std::string (*unpack)(rpc::Unpacker &, int how, Rng &);
};
template <class T> static std::string do_pack(rpc::Packer &p, Rng &g) {
  T x = Gen<T>::get(g);
  if constexpr (std::is_same_v<T, std::string>) {
    int h = g.below(4);
    if (h == 0) p.process(std::string_view(x)); else if (h == 1 && x.find('\0') == std::string::npos) p.process(x.c_str()); else p.process(x);
  } else if (g.chance(1, 2)) p.process(x); else p(x);
  return value(x);
}
template <class T> static std::string do_unpack(rpc::Unpacker &u, int how, Rng &g) {
  constexpr bool over = std::is_arithmetic_v<T> || std::is_same_v<T, std::string> || std::is_same_v<T, V> || std::is_same_v<T, TP>;
  if constexpr (!std::is_same_v<T, std::nullptr_t>) if (how == 1) { T x = u.as<T>(); return value(x); }
  T x{};
  if constexpr (over) if (how == 2) x = Gen<T>::get(g);
  if (how == 3) u(x); else u.process(x);
  return value(x);
}
#define K(n, ...) {n, std::is_integral_v<__VA_ARGS__> && !std::is_same_v<__VA_ARGS__, bool>, do_pack<__VA_ARGS__>, do_unpack<__VA_ARGS__>}
static const std::vector<Kind> kinds = {
  K("i8", int8_t), K("i16", int16_t), K("i32", int32_t), K("i64", int64_t), K("u8", uint8_t), K("u16", uint16_t), K("u32", uint32_t), K("u64", uint64_t),
  K("bool", bool), K("float", float), K("double", double), K("str", std::string), K("bin", V), K("nil", std::nullptr_t), K("tp", TP),
  K("v_i32", std::vector<int32_t>), K("v_str", std::vector<std::string>), K("l_i16", std::list<int16_t>), K("l_u64", std::list<uint64_t>), K("a_u32", std::array<uint32_t, 3>), K("a_str", std::array<std::string, 2>), K("a_i8", std::array<int8_t, 17>),
  K("m_s_i", std::map<std::string, int32_t>), K("m_i_v", std::map<int64_t, std::vector<double>>), K("um_u_s", std::unordered_map<uint16_t, std::string>), K("m_u8_m", std::map<uint8_t, std::map<int8_t, bool>>),
  K("t_ius", std::tuple<int32_t, uint64_t, std::string>), K("t_nest", std::tuple<bool, std::tuple<float, V>, std::vector<std::tuple<int8_t, double>>>), K("vv_u16", std::vector<std::vector<uint16_t>>),
  K("inner", Inner), K("obj", Obj), K("v_obj", std::vector<Obj>), K("v_f", std::vector<float>), K("v_bin", std::vector<V>),
};
static drv::Program make_pack(uint64_t seed) {
  Rng g0(seed);
  drv::Program p;
  p.scn = "{\"mode\":\"pack\"}";
  p.body = [seed] {
    Rng g(seed);
    rpc::Packer pk;
    std::vector<const Kind *> ks;
    int n = g.range(1, 8);
    bool ints = g.chance(1, 3);
    for (int i = 0; i < n; ++i) {
      const Kind &k = kinds[ints ? g.below(8) : g.chance(1, 2) ? g.below(15) : g.below((int)kinds.size())];
      size_t a = pk.vector().size();
      std::string v = k.pack(pk, g);
      V b(pk.vector().begin() + a, pk.vector().end());
      if (k.integer) EV("\"e\":\"pack\",\"t\":\"%s\",\"v\":%s,\"end\":%d,\"b\":%s", k.name, v.c_str(), (int)pk.vector().size(), list(b).c_str());
      else EV("\"e\":\"pack\",\"t\":\"%s\",\"v\":%s,\"end\":%d,\"b\":[]", k.name, v.c_str(), (int)pk.vector().size());
      ks.push_back(&k);
    }
    size_t cut = pk.vector().size();
    if (g.chance(1, 3)) cut = g.chance(1, 2) ? g.below((int)cut + 1) : cut - std::min<size_t>(cut, g.range(1, 12));
    // an exact copy, so that reading past it is noticed
    uint8_t *d = new uint8_t[cut]; if (cut) memcpy(d, pk.vector().data(), cut);
    EV("\"e\":\"cut\",\"n\":%d", (int)cut);
    rpc::Unpacker u(d, cut);
    if (g.chance(1, 4)) { u = rpc::Unpacker(); u.set_data(d, cut); }
    for (auto *k : ks) {
      if (g.chance(1, 40)) k = &kinds[g.below((int)kinds.size())];
      int how = g.below(4);
      std::string v = k->unpack(u, how, g);
      EV("\"e\":\"unpack\",\"t\":\"%s\",\"v\":%s,\"err\":%s", k->name, v.c_str(), u.error_ ? "true" : "false");
    }
    if (g.chance(1, 3)) { auto &k = kinds[g.below((int)kinds.size())]; std::string v = k.unpack(u, g.below(4), g); EV("\"e\":\"unpack\",\"t\":\"%s\",\"v\":%s,\"err\":%s", k.name, v.c_str(), u.error_ ? "true" : "false"); }
    delete[] d;
  };
  return p;
}
// whole objects through the free functions
static drv::Program make_obj(uint64_t seed) {
  drv::Program p;
  p.scn = "{\"mode\":\"obj\"}";
  p.body = [seed] {
    Rng g(seed);
    Obj o = Gen<Obj>::get(g);
    V b = rpc::pack(o);
    EV("\"e\":\"pack\",\"t\":\"o\",\"v\":%s,\"end\":%d,\"b\":[]", value(o).c_str(), (int)b.size());
    size_t cut = g.chance(1, 3) ? g.below((int)b.size() + 1) : b.size();
    b.resize(cut); b.shrink_to_fit();
    EV("\"e\":\"cut\",\"n\":%d", (int)cut);
    plain::Error e;
    Obj r = g.chance(1, 2) ? rpc::unpack<Obj>(b, e) : rpc::unpack<Obj>(b.data(), b.size(), e);
    EV("\"e\":\"unpack\",\"t\":\"o\",\"v\":%s,\"err\":%s", value(r).c_str(), e ? "true" : "false");
  };
  return p;
}
// arbitrary bytes
static drv::Program make_hostile(uint64_t seed) {
  drv::Program p;
  p.scn = "{\"mode\":\"hostile\"}";
  p.body = [seed] {
    Rng g(seed);
    int n = g.range(0, 24);
    uint8_t *d = new uint8_t[n];
    for (int i = 0; i < n; ++i) d[i] = g.chance(1, 2) ? g.below(26) : g.chance(1, 3) ? 255 : g.chance(1, 2) ? 0x80 + g.below(64) : g.below(256);
    EV("\"e\":\"bytes\",\"n\":%d", n);
    rpc::Unpacker u(d, n);
    for (int i = g.range(1, 4); i--;) {
      auto &k = kinds[g.below((int)kinds.size())];
      bool was = (bool)u.error_;
      std::string v = k.unpack(u, g.below(4), g);
      EV("\"e\":\"unpack\",\"t\":\"%s\",\"v\":%s,\"err\":%s", k.name, v.c_str(), u.error_ ? "true" : "false");
      (void)was;
    }
    rusage r; getrusage(RUSAGE_SELF, &r);
    EV("\"e\":\"mem\",\"big\":%s", r.ru_maxrss > 600000 ? "true" : "false");
    delete[] d;
  };
  return p;
}
int main(int argc, char **argv) { return drv::run(argc, argv, {{"pack", make_pack}, {"obj", make_obj}, {"hostile", make_hostile}}); }
