// Text and path helpers, encodings and digests, script variables, addresses.
// Every call is one event with its arguments and its result; the blocks handed
// to the library have exactly the size they claim to have.
#include "driver.h"
#include <cmath>
#include <memory>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <unistd.h>
#include <fcntl.h>
#include <ftw.h>
#include "plain/basic/type/variable.h"
#include "plain/basic/utility.h"
#include "plain/basic/base64.h"
#include "plain/basic/md5.h"
#include "plain/basic/endian.h"
#include "plain/basic/time.h"
#include "plain/net/address.h"
using namespace std::string_literals;
using namespace std::string_view_literals;
namespace {
using Bytes = std::string;
std::string arr(std::string_view s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); ++i) { if (i) r += ','; r += std::to_string((unsigned char)s[i]); }
  return r + "]";
}
std::string arrs(const std::vector<std::string> &v) {
  std::string r = "[";
  for (size_t i = 0; i < v.size(); ++i) { if (i) r += ','; r += arr(v[i]); }
  return r + "]";
}
const char *yes(bool b) { return b ? "yes" : "no"; }
struct Exact {                   // a heap block of exactly the size
  char *p; size_t n;
  explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
  explicit Exact(size_t n) : p(new char[n]), n(n) { memset(p, 1, n); }
  ~Exact() { delete[] p; }
  Exact(const Exact &) = delete;
  std::string_view view() const { return {p, n}; }
};
Exact zstr(std::string_view s) { return Exact(std::string(s) + '\0'); }
void put(const std::string &s) { EV("%s", s.c_str()); }
struct J {                       // one event
  std::string s;
  explicit J(const char *e) { s = "\"e\":\""; s += e; s += '"'; }
  J &b(const char *k, std::string_view v) { s += ",\""; s += k; s += "\":" + arr(v); return *this; }
  J &bs(const char *k, const std::vector<std::string> &v) { s += ",\""; s += k; s += "\":" + arrs(v); return *this; }
  J &i(const char *k, long v) { s += ",\""; s += k; s += "\":" + std::to_string(v); return *this; }
  J &y(const char *k, bool v) { s += ",\""; s += k; s += "\":\""; s += yes(v); s += '"'; return *this; }
  J &t(const char *k, const std::string &v) { s += ",\""; s += k; s += "\":\"" + v + "\""; return *this; }
  ~J() { put(s); }
};
std::string word(drv::Rng &g, std::string_view from, int most) {
  std::string s;
  int n = g.chance(1, 60) ? g.range(100, 400) : g.range(0, most);
  while (n-- > 0) s += from[(size_t)g.below((int)from.size())];
  return s;
}
std::string bytes(drv::Rng &g, int most) {
  std::string s;
  int n = g.range(0, most), w = g.below(3);
  while (n-- > 0) s += (char)(w == 0 ? g.below(256) : w == 1 ? g.range(32, 126) : (int)g.pick(std::vector<int>{0, 1, 127, 128, 255}));
  return s;
}
const char *const kText[] = {"ab", "a,b;", " \t\nx", "aA'\"\\", "ab \0c", "/\\.a"};
std::string text(drv::Rng &g, int most, bool nul) {
  static const size_t len[] = {2, 4, 4, 5, 5, 4};
  int k = g.below(6);
  if (g.chance(1, 6)) {
    std::string b = bytes(g, most);
    if (!nul) for (auto &c : b) if (!c) c = 'z';
    return b;
  }
  std::string s = word(g, {kText[k], len[k]}, most);
  if (!nul) for (auto &c : s) if (!c) c = 'z';
  return s;
}
std::string decimal(drv::Rng &g, bool sign, int most) {
  std::string s;
  if (sign && g.chance(1, 8)) s += g.chance(1, 2) ? " " : "\t";
  if (sign && g.chance(1, 3)) s += g.chance(3, 4) ? "-" : "+";
  int n = g.range(1, most), w = g.below(4);
  for (int i = 0; i < n; ++i) s += (char)('0' + (w == 0 ? 0 : w == 1 ? 9 : g.below(10)));
  if (g.chance(1, 6)) s += g.chance(1, 2) ? "x" : " 1";
  return s;
}
} // namespace

// ---------------------------------------------------------------- helpers --
static drv::Program helpers(uint64_t seed) {
  drv::Program q;
  q.scn = "{}";
  q.body = [seed] {
    drv::Rng g(seed);
    for (int i = g.range(6, 12); i-- > 0;) {
      switch (g.below(18)) {
      case 0: case 1: {
        std::string s = text(g, 8, true), m = g.chance(1, 3) ? " \t\n\r\0\x0B"s : text(g, 3, true), r = s;
        bool d = m.size() == 6 && m == " \t\n\r\0\x0B"s;
        int w = g.below(3);
        Exact mm(m);
        std::string &back = w == 0 ? (d ? plain::trim(r) : plain::trim(r, mm.view())) :
            w == 1 ? (d ? plain::ltrim(r) : plain::ltrim(r, mm.view())) : (d ? plain::rtrim(r) : plain::rtrim(r, mm.view()));
        if (&back != &r) { J("other"); break; }
        J(w == 0 ? "trim" : w == 1 ? "ltrim" : "rtrim").b("s", s).b("m", m).b("r", r);
        break;
      }
      case 2: case 3: {
        std::string s = text(g, 9, true), f = g.chance(3, 4) && !s.empty() ? s.substr((size_t)g.below((int)s.size()), (size_t)g.range(1, 2)) : text(g, 2, true),
            by = g.chance(1, 3) ? f + f : text(g, 3, true);
        int n = g.chance(1, 2) ? -1 : g.range(0, 3);
        Exact a(f), b(by), c(s);
        J("replace").b("s", s).b("f", f).b("by", by).i("n", n).b("r", plain::str_replace(a.view(), b.view(), c.view(), n));
        break;
      }
      case 4: {
        std::string s = text(g, 9, true), by = text(g, 2, true);
        std::vector<std::string> f;
        for (int k = g.range(0, 3); k-- > 0;) f.push_back(g.chance(3, 4) && !s.empty() ? s.substr((size_t)g.below((int)s.size()), (size_t)g.range(1, 2)) : text(g, 2, true));
        int n = g.chance(2, 3) ? -1 : g.range(0, 2);
        J("replaces").b("s", s).bs("f", f).b("by", by).i("n", n).b("r", plain::str_replaces(f, by, s, n));
        break;
      }
      case 5: case 6: {
        std::string s = text(g, 12, false), k = g.chance(1, 2) && !s.empty() ? s.substr((size_t)g.below((int)s.size()), (size_t)g.range(1, 2)) : text(g, 2, false);
        bool one = g.chance(1, 2), ign = g.chance(1, 2);
        if (one && k.empty()) k = ",";
        std::vector<std::string> r{"old"};
        Exact a = zstr(s), b = zstr(k);
        int n = plain::explode(a.p, r, b.p, one, ign);
        J("explode").b("s", s).b("k", k).y("one", one).y("ign", ign).i("n", n).bs("r", r);
        break;
      }
      case 7: {
        std::string s = text(g, 8, true);
        std::vector<std::string> f;
        for (int k = g.range(0, 3); k-- > 0;) f.push_back(g.chance(1, 3) && !s.empty() ? s.substr((size_t)g.below((int)s.size()), (size_t)g.range(0, 3)) : text(g, 2, true));
        Exact a(s);
        J("contains").b("s", s).bs("f", f).y("r", plain::contains(a.view(), f));
        break;
      }
      case 8: {
        std::string s = g.chance(1, 2) ? word(g, "abc def_1.\0", 8) : word(g, {"ab'\"()=\0", 8}, 6);
        Exact a(s);
        J("check").b("s", s).y("r", plain::checkstr(a.p, (uint32_t)a.n));
        break;
      }
      case 9: {
        std::string s = g.chance(1, 2) ? bytes(g, 12) : word(g, "aZAz@[`{09", 8);
        bool up = g.chance(1, 2);
        J(up ? "upper" : "lower").b("s", s).b("r", up ? plain::toupper(s) : plain::tolower(s));
        break;
      }
      case 10: {
        std::string s = word(g, "a'\"\\", 8), r = plain::addslashes(s);
        J("slashes").b("s", s).b("r", r).b("back", plain::stripslashes(r));
        break;
      }
      case 11: {
        std::string s = text(g, 8, false);
        int n = g.range(1, 10);
        Exact a = zstr(s), d((size_t)n);
        char *back = plain::safecopy(d.p, a.p, (size_t)n);
        J("copy").b("s", s).i("n", n).y("same", back == d.p).b("r", std::string(d.p, strnlen(d.p, d.n))).y("end", strnlen(d.p, d.n) < d.n);
        break;
      }
      case 12: {
        std::string s = g.chance(1, 2) ? word(g, {"a\n\r\x1a\"'\\\0b", 9}, 8) : bytes(g, 8);
        int n = g.range(0, 20);
        Exact a(s), d((size_t)n);
        plain::getescape(a.p, a.n, d.p, d.n);
        J("escape").b("s", s).i("n", n).b("r", d.view());
        break;
      }
      case 13: {
        std::string s = word(g, "/\\ab.", 9);
        if (g.chance(1, 2)) {
          Exact a = zstr(s), d(s.size() + 1);
          plain::dirname(a.p, d.p);
          J("dirname").b("s", s).b("r", std::string(d.p, strnlen(d.p, d.n)));
        } else {
          bool unixy = g.chance(1, 2);
          int n = g.range(0, (int)s.size());
          Exact a(s);
          if (unixy) plain::path_tounix(a.p, (uint16_t)n); else plain::path_towindows(a.p, (uint16_t)n);
          J("path").b("s", s).i("n", n).y("unix", unixy).b("r", a.view());
        }
        break;
      }
      case 14: {
        if (g.chance(1, 4)) {
          char self[4096];
          auto m = readlink("/proc/self/exe", self, sizeof self);
          if (m <= 0) break;
          std::string s(self, (size_t)m);
          int n = (int)m + g.range(-3, 3);
          if (n < 1) n = 1;
          Exact d((size_t)n);
          plain::get_module_filename(d.p, d.n);
          // only the length matters: the path is another one in every sandbox
          J("module").i("m", (long)m).i("n", n).y("part", strnlen(d.p, d.n) <= s.size() && !s.compare(0, strnlen(d.p, d.n), d.p, strnlen(d.p, d.n))).i("r", (long)strnlen(d.p, d.n));
          break;
        }
        std::string s = "x" + word(g, "/\\a", 6);
        int n = (int)s.size() + g.range(1, 3);
        char d = g.chance(1, 2) ? '/' : '\\';
        Exact a((size_t)n);
        memcpy(a.p, s.c_str(), s.size() + 1);
        plain::complementpath(a.p, a.n, d);
        J("complete").b("s", s).i("n", n).i("d", d).b("r", std::string(a.p, strnlen(a.p, a.n)));
        break;
      }
      case 15: {
        // 1..18 digits, often next to where the number of digits shown changes
        uint64_t v = 1;
        int n = g.range(0, 17);
        for (int k = 0; k < n; ++k) v *= 10;
        if (g.chance(1, 2)) v = v / 1000 * (uint64_t)g.pick(std::vector<int>{9995, 9994, 9996, 999, 1005, 1015, 5555}) + (uint64_t)g.range(0, 2) - 1;
        else v += g.next() % (v * 9);
        if (v > 9000000000000000000ull) v = 7;
        { std::string t = std::to_string(v); J("size").b("v", t).b("r", plain::format_size(v)); };
        break;
      }
      case 16: {
        if (g.chance(1, 2)) {
          uint32_t h = (uint32_t)g.next(), l = g.chance(1, 3) ? 0xffffffffu : (uint32_t)g.next();
          uint64_t v = plain::touint64(h, l);
          J e("halves");
          e.i("h1", h >> 16).i("h0", h & 65535).i("l1", l >> 16).i("l0", l & 65535);
          e.i("v3", (long)(v >> 48)).i("v2", (long)(v >> 32 & 65535)).i("v1", (long)(v >> 16 & 65535)).i("v0", (long)(v & 65535));
          uint32_t hh = plain::get_highsection(v), ll = plain::get_lowsection(v);
          e.i("a1", hh >> 16).i("a0", hh & 65535).i("b1", ll >> 16).i("b0", ll & 65535);
        } else {
          bool sign = g.chance(1, 2);
          std::string s = decimal(g, sign, 18);
          Exact a = zstr(s);
          { std::string t = sign ? std::to_string(plain::toint64(a.p)) : std::to_string(plain::touint64(a.p)); J("number").b("s", s).b("r", t); }
        }
        break;
      }
      default: {
        int w = g.below(3);
        int v = w == 0 ? g.range(0, 100000000) * 21 : w == 1 ? 86400 * g.range(0, 24000) - g.range(0, 1) : (int)(g.next() % 2000000000u);
        if (v < 0) v = 0;
        J("time").i("v", v).b("r", plain::Time::format((time_t)v));
      }
      }
    }
  };
  return q;
}

// ------------------------------------------------------------------ codes --
template <class T> static void swapped(drv::Rng &g, const char *n) {
  T v;
  Bytes b;
  for (size_t i = 0; i < sizeof v; ++i) b += (char)g.below(256);
  if constexpr (std::is_floating_point_v<T>) { v = (T)(g.range(-100000, 100000)) / 16; b.assign((char *)&v, sizeof v); }
  memcpy(&v, b.data(), sizeof v);
  T r = g.chance(1, 2) ? plain::hton(v) : plain::ntoh(v);
  Bytes rb((char *)&r, sizeof r);
  J e("swap");
  e.t("t", n).b("s", b).b("r", rb);
  if constexpr (!std::is_floating_point_v<T>) {
    Bytes at(sizeof v, '\0');
    plain::hton(v, at.begin());
    T in = plain::ntoh<T>(b.begin());
    e.b("at", at).b("in", Bytes((char *)&in, sizeof in));
  } else {
    e.b("at", rb).b("in", rb);
  }
}
static drv::Program codes(uint64_t seed) {
  drv::Program q;
  q.scn = "{}";
  q.body = [seed] {
    drv::Rng g(seed);
    for (int i = g.range(4, 8); i-- > 0;) {
      switch (g.below(12)) {
      case 0: case 1: {
        std::string s = bytes(g, 12), r;
        Exact a(s);
        r = g.chance(1, 2) ? plain::base64_encode(a.view()) : plain::base64_encode((const unsigned char *)a.p, (unsigned)a.n);
        J("encode").b("s", s).b("r", r);
        if (g.chance(1, 3)) while (!r.empty() && r.back() == '=') r.pop_back();
        J("decode").b("s", r).b("r", plain::base64_decode(r));
        break;
      }
      case 2: {
        std::string s = g.chance(1, 2) ? bytes(g, 9) : word(g, "AQgw=+/az09 ", 9);
        plain::base64_decode(s);
        int k = g.range(-2, 66);
        J("char").i("n", k).i("c", plain::get_base64char(k));
        break;
      }
      case 3: case 4: {
        std::string s = bytes(g, 9);
        Exact a(s), h(2 * s.size());
        bool ok = plain::binary_tostring(a.p, (uint32_t)a.n, h.p);
        J("hex").b("s", s).y("ok", ok).b("r", ok ? h.view() : std::string_view{});
        if (!ok) break;
        int lim = g.chance(1, 2) ? (int)s.size() : g.range(0, (int)s.size() + 2);
        Exact b((size_t)lim);
        uint32_t n = 0;
        std::string in(h.view());
        if (g.chance(1, 4)) { if (g.chance(1, 2)) in.pop_back(); else in += '\0'; }
        Exact x(in);
        ok = plain::string_tobinary(x.p, (uint32_t)x.n, b.p, (uint32_t)lim, n);
        J("unhex").b("s", in).i("lim", lim).y("ok", ok).b("r", n <= b.n ? std::string_view(b.p, n) : "overlong"s);
        break;
      }
      case 5: case 6: {
        // fed in pieces; lengths around the blocks
        int n = g.chance(1, 2) ? g.range(0, 20) : g.pick(std::vector<int>{54, 55, 56, 57, 62, 63, 64, 65, 118, 119, 120, 121, 127, 128, 129, 140});
        std::string s;
        while (n-- > 0) s += (char)g.below(256);
        std::string r;
        int w = g.below(4);
        if (w == 0) r = plain::md5(s);
        else if (w == 1) r = plain::MD5(s).hexdigest();
        else {
          plain::MD5 m;
          for (size_t k = 0; k < s.size();) {
            size_t c = (size_t)g.range(0, w == 2 ? 5 : 70);
            if (c > s.size() - k) c = s.size() - k;
            Exact a(std::string_view(s).substr(k, c));
            if (g.chance(1, 2)) m.update(a.p, (unsigned)c); else m.update((const unsigned char *)a.p, (unsigned)c);
            k += c;
          }
          bool early = !m.hexdigest().empty();
          r = early ? "early" : g.chance(1, 2) ? m.finalize().md5() : m.finalize().finalize().hexdigest();
        }
        J("md5").b("s", s).b("r", r);
        break;
      }
      case 7: case 8: {
        std::string s, r, b;
        int n = g.range(0, 22);
        while (n-- > 0) s += (char)g.range(32, 126);
        if (g.chance(1, 10) && !s.empty()) s[(size_t)g.below((int)s.size())] = (char)g.pick(std::vector<int>{1, 31, 127, 200});
        Exact a(s);
        bool ok = plain::encrypt(a.view(), r);
        J e("password");
        e.b("s", s).y("ok", ok);
        Exact c(r);
        bool back = ok && plain::decrypt(c.view(), b);
        e.y("back", back).b("r", b).i("len", ok ? (long)r.size() : 0).y("plain", ok && r.find(s) != std::string::npos && s.size() > 3);
        break;
      }
      case 9: {
        std::string s = bytes(g, g.chance(1, 4) ? 150 : 10), r, b;
        int v = g.pick(std::vector<int>{0, 1, -1, 7, 10, -10, 99999, 2147483647, -2147483647, -2147483647 - 1, 1234567890, -1234567890, (int)g.next()}), w = 0;
        Exact a(s);
        bool ok = plain::encrypt(a.view(), v, r);
        Exact c(r);
        bool back = ok && plain::decrypt(c.view(), w, b);
        J("tagged").b("s", s).t("v", std::to_string(v)).y("ok", ok).y("back", back).t("w", std::to_string(w)).b("r", b);
        break;
      }
      case 10: {
        // what nobody encrypted
        std::string s = bytes(g, 40), b, r;
        if (g.chance(1, 2)) { plain::encrypt("secret"sv, r); if (!r.empty()) { r[(size_t)g.below((int)r.size())] = (char)g.range(1, 255); s = r; } }
        else if (g.chance(1, 2)) { plain::encrypt("some text"sv, 77, r); r[(size_t)g.below(6)] = (char)g.range(0, 255); s = r.substr(0, (size_t)g.range(0, (int)r.size())); }
        Exact a(s);
        int v;
        plain::decrypt(a.view(), b);
        plain::decrypt(a.view(), v, b);
        J("hostile");
        break;
      }
      default:
        switch (g.below(7)) {
        case 0: swapped<uint8_t>(g, "u8"); break;
        case 1: swapped<uint16_t>(g, "u16"); break;
        case 2: swapped<int32_t>(g, "i32"); break;
        case 3: swapped<uint32_t>(g, "u32"); break;
        case 4: swapped<int64_t>(g, "i64"); break;
        case 5: swapped<float>(g, "f"); break;
        default: swapped<double>(g, "d"); break;
        }
      }
    }
  };
  return q;
}

// -------------------------------------------------------------------- var --
namespace {
using plain::variable_t;
enum class Small : uint8_t { a = 3, b = 200 };
enum class Wide : int32_t { a = -7, b = 70000 };
const char *const kKind[] = {"bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "str"};
// m * 2^-e with m odd or e = 0; false when it does not fit what is judged
bool dyadic(double v, long &m, int &e) {
  for (e = 0; e <= 14; ++e, v *= 2)
    if (v == std::floor(v)) { if (std::fabs(v) > 4e6) return false; m = (long)v; return true; }
  return false;
}
bool fits(double v) { long m; int e; return dyadic(v, m, e) && std::fabs(v) < 30000; }
std::string num(double v) {
  long m; int e;
  if (!dyadic(v, m, e)) return "{\"m\":1,\"d\":99}";
  return "{\"m\":" + std::to_string(m) + ",\"d\":" + std::to_string(e) + "}";
}
std::string show(const variable_t &v) {      // its kind and value
  std::string s = "{\"k\":\""s + kKind[v.value.index()] + "\"";
  if (v.value.index() == 11) return s + ",\"s\":" + arr(std::get<std::string>(v.value)) + "}";
  double d = 0;
  std::visit([&](auto &&x) { if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::string>) d = (double)x; }, v.value);
  return s + ",\"v\":" + num(d) + "}";
}
template <class T> std::string try_get(variable_t &v, int how) {
  try {
    variable_t r{how == 0 ? v.get<T>() : how == 1 ? v._get<T>() : static_cast<T>(v)};
    return show(r);
  } catch (const std::bad_variant_access &) { return "{\"k\":\"throw\"}"; }
}
std::string get_as(variable_t &v, int k, int how) {
  switch (k) {
  case 0: return try_get<bool>(v, how); case 1: return try_get<int8_t>(v, how); case 2: return try_get<uint8_t>(v, how);
  case 3: return try_get<int16_t>(v, how); case 4: return try_get<uint16_t>(v, how); case 5: return try_get<int32_t>(v, how);
  case 6: return try_get<uint32_t>(v, how); case 7: return try_get<int64_t>(v, how); case 8: return try_get<uint64_t>(v, how);
  case 9: return try_get<float>(v, how); case 10: return try_get<double>(v, how);
  default: return try_get<std::string>(v, how == 2 ? 0 : how);
  }
}
variable_t make(drv::Rng &g, std::string &what) {
  int k = g.below(15), n = g.chance(1, 3) ? g.range(-3, 3) : g.range(-120, 120), u = g.chance(1, 2) ? g.range(0, 5) : g.range(0, 250);
  int w = g.chance(1, 2) ? n : g.range(-20000, 20000);
  double d = w / (double)(1 << g.below(4));
  auto as = [&](const char *kind, double v) { what = "{\"k\":\""s + kind + "\",\"v\":" + num(v) + "}"; };
  switch (k) {
  case 0: as("bool", n & 1); return variable_t{(n & 1) == 1};
  case 1: as("i8", n); return variable_t{(int8_t)n};
  case 2: as("u8", u); return variable_t{(uint8_t)u};
  case 3: as("i16", w); return variable_t{(int16_t)w};
  case 4: as("u16", u); return variable_t{(uint16_t)u};
  case 5: as("i32", w); return variable_t{w};
  case 6: as("u32", u); return variable_t{(uint32_t)u};
  case 7: as("i64", w); return variable_t{(int64_t)w};
  case 8: as("u64", u); return variable_t{(uint64_t)u};
  case 9: as("f32", d); return variable_t{(float)d};
  case 10: as("f64", d); return variable_t{d};
  case 11: if (u & 1) { as("u8", u & 2 ? 3 : 200); return variable_t{u & 2 ? Small::a : Small::b}; }
           as("i32", u & 2 ? -7 : 70000); return variable_t{u & 2 ? Wide::a : Wide::b};
  default: {
    std::string s;
    if (g.chance(2, 3)) { s = std::to_string(w); if (g.chance(1, 3)) s += g.pick(std::vector<std::string>{".5", ".25", ".75", ".0"}); if (g.chance(1, 4)) s += "kg"; }
    else s = word(g, "abC 1", 5);
    what = "{\"k\":\"str\",\"s\":" + arr(s) + "}";
    return k == 12 ? variable_t{s} : variable_t{s.c_str()};
  }
  }
}
} // namespace
static drv::Program vars(uint64_t seed) {
  drv::Program q;
  q.scn = "{}";
  q.body = [seed] {
    drv::Rng g(seed);
    variable_t v[3];
    std::string w;
    for (int i = 0; i < 3; ++i) { v[i] = make(g, w); EV("\"e\":\"set\",\"a\":%d,\"x\":%s", i + 1, w.c_str()); }
    auto look = [&](int a) { EV("\"e\":\"look\",\"a\":%d,\"r\":%s", a + 1, show(v[a]).c_str()); };
    for (int i = g.range(8, 16); i-- > 0;) {
      int a = g.below(3), b = g.below(3);
      switch (g.below(12)) {
      case 0: v[a] = make(g, w); EV("\"e\":\"set\",\"a\":%d,\"x\":%s", a + 1, w.c_str()); break;
      case 1:
        if (g.chance(1, 2)) { v[a] = v[b]; EV("\"e\":\"copy\",\"a\":%d,\"b\":%d", a + 1, b + 1); }
        else { variable_t c{v[b]}; if (a != b) v[a] = std::move(c); EV("\"e\":\"copy\",\"a\":%d,\"b\":%d", a + 1, b + 1); }
        break;
      case 2: case 3: {
        int k = g.chance(2, 3) ? (int)v[a].value.index() : g.below(12), how = g.below(3);
        std::string r = get_as(v[a], k, how);
        EV("\"e\":\"get\",\"a\":%d,\"k\":\"%s\",\"r\":%s", a + 1, kKind[k], r.c_str());
        if (v[a].value.index() == 11) { std::string c = v[a].c_str(); J("chars").i("a", a + 1).b("r", c); }
        break;
      }
      case 4: {
        std::string i64 = num((double)v[a].to_int64()), f = num(v[a].to_double());
        EV("\"e\":\"convert\",\"a\":%d,\"i\":%s,\"d\":%s", a + 1, i64.c_str(), f.c_str());
        break;
      }
      case 5: case 6: case 7: {
        static const char *ops[] = {"+", "-", "*", "/"};
        int o = g.below(4);
        bool self = g.chance(1, 2);
        double x = v[a].to_double(), y = self ? v[b].to_double() : g.range(-40, 40) / (double)(1 << g.below(3));
        if (o == 3 && (y == 0 || std::log2(std::fabs(y)) != std::floor(std::log2(std::fabs(y))))) { if (self) break; y = g.pick(std::vector<double>{2, -2, 0.5, 4, 1}); }
        if (!self && g.chance(1, 2)) y = (double)(int)y == 0 ? 1 : (double)(int)y;
        if (o == 3 && std::log2(std::fabs(y)) != std::floor(std::log2(std::fabs(y)))) y = 2;
        if (!fits(x) || !fits(y) || !fits(o == 0 ? x + y : o == 1 ? x - y : o == 2 ? x * y : x / y)) break;
        variable_t *back = nullptr;
        if (self) {
          if (a == b && o == 3 && x == 0) break;
          back = &(o == 0 ? v[a] += v[b] : o == 1 ? v[a] -= v[b] : o == 2 ? v[a] *= v[b] : v[a] /= v[b]);
          EV("\"e\":\"op\",\"o\":\"%s\",\"a\":%d,\"b\":%d,\"same\":\"%s\"", ops[o], a + 1, b + 1, yes(back == &v[a]));
        } else {
          if (y == (int)y && g.chance(1, 2)) { int n = (int)y; back = &(o == 0 ? v[a] += n : o == 1 ? v[a] -= n : o == 2 ? v[a] *= n : v[a] /= n); }
          else back = &(o == 0 ? v[a] += y : o == 1 ? v[a] -= y : o == 2 ? v[a] *= y : v[a] /= y);
          EV("\"e\":\"opn\",\"o\":\"%s\",\"a\":%d,\"x\":%s,\"same\":\"%s\"", ops[o], a + 1, num(y).c_str(), yes(back == &v[a]));
        }
        look(a);
        break;
      }
      case 8: {
        if (!fits(v[a].to_double())) break;
        int o = g.below(4);
        if (o < 2) {
          variable_t &r = o == 0 ? ++v[a] : --v[a];
          EV("\"e\":\"step\",\"a\":%d,\"n\":%d,\"same\":\"%s\"", a + 1, o == 0 ? 1 : -1, yes(&r == &v[a]));
        } else {
          variable_t r{o == 2 ? v[a]++ : v[a]--};
          EV("\"e\":\"post\",\"a\":%d,\"n\":%d,\"r\":%s", a + 1, o == 2 ? 1 : -1, show(r).c_str());
        }
        look(a);
        break;
      }
      case 9: case 10: {
        const variable_t &x = v[a], &y = v[b];
        EV("\"e\":\"compare\",\"a\":%d,\"b\":%d,\"eq\":\"%s\",\"ne\":\"%s\",\"lt\":\"%s\",\"gt\":\"%s\",\"le\":\"%s\",\"ge\":\"%s\"", a + 1, b + 1,
           yes(x == y), yes(x != y), yes(x < y), yes(x > y), yes(x <= y), yes(x >= y));
        break;
      }
      default: {
        size_t k = v[a].value.index();
        if (k == 1 || k == 2 || (k >= 9 && k != 11)) break;
        std::ostringstream os;
        os << v[a];
        J("print").i("a", a + 1).b("r", os.str());
      }
      }
      if (g.chance(1, 4)) look(g.below(3));
    }
    for (int i = 0; i < 3; ++i) look(i);
  };
  return q;
}

// ------------------------------------------------------------------- addr --
namespace {
std::string v4(drv::Rng &g) {
  if (g.chance(1, 4)) return g.pick(std::vector<std::string>{"127.0.0.1", "0.0.0.0", "127.0.0.2", "1.2.3.4", "255.255.255.254", "0.0.0.1", "10.0.0.255"});
  std::string s;
  for (int i = 0; i < 4; ++i) s += (i ? "." : "") + std::to_string(g.pick(std::vector<int>{0, 1, 9, 10, 99, 100, 127, 200, 254, 255, g.below(256)}));
  return s;
}
std::string v6(drv::Rng &g) {
  if (g.chance(1, 4)) return g.pick(std::vector<std::string>{"::", "::1", "0:0:0:0:0:0:0:0", "0:0:0:0:0:0:0:1", "::2", "fe80::1", "::ffff:1.2.3.4", "2001:db8::", "1::", "0::0"});
  std::vector<int> h;
  for (int i = 0; i < 8; ++i) h.push_back(g.chance(1, 2) ? 0 : g.pick(std::vector<int>{1, 15, 255, 4096, 65535, g.below(65536)}));
  int b = 0, e = 0;
  bool zip = g.chance(1, 2), dotted = g.chance(1, 4);
  if (zip) {                       // leave out a run of zeros
    b = g.below(dotted ? 6 : 8); e = b;
    while (e < (dotted ? 6 : 8) && (h[e] == 0 || g.chance(1, 3))) ++e;
    if (e == b) e = b + 1;
  }
  std::string s;
  bool sep = false;
  for (int i = 0; i < 8; ++i) {
    if (zip && i == b) { s += "::"; sep = false; i = e - 1; continue; }
    if (sep) s += ':';
    if (dotted && i == 6) { s += v4(g); break; }
    char t[8];
    snprintf(t, sizeof t, g.chance(1, 4) ? "%04x" : g.chance(1, 3) ? "%X" : "%x", (unsigned)h[i]);
    s += t; sep = true;
  }
  return s;
}
std::string port(drv::Rng &g, bool &judged) {
  (void)judged;
  if (g.chance(1, 6)) return g.pick(std::vector<std::string>{"65536", "65616", "131072", "99999", "4294967296", "4294967376"});
  return std::to_string(g.pick(std::vector<int>{0, 1, 80, 443, 8080, 32767, 32768, 65535, g.below(65536)}));
}
} // namespace
static drv::Program addrs(uint64_t seed) {
  drv::Program q;
  q.scn = "{}";
  q.body = [seed] {
    using plain::net::Address;
    drv::Rng g(seed);
    auto report = [&](J &e, const Address &a, bool lis) {
      Bytes d;
      for (auto c : a.data()) d += (char)c;
      if (a.family() == AF_INET) e.t("fam", "4").b("host", d.size() == sizeof(sockaddr_in) ? d.substr(4, 4) : ""s);
      else if (a.family() == AF_INET6) e.t("fam", "6").b("host", d.size() == sizeof(sockaddr_in6) ? d.substr(8, 16) : ""s);
      else e.t("fam", "other").b("host", "");
      e.i("port", a.port()).b("text", a.text()).b("name", a.host()).y("full", a.size() == d.size());
      // what its text reads back as
      try {
        std::string t = a.text();
        Exact x(t);
        Address b{x.view(), lis};
        e.y("again", b.data() == a.data());
      } catch (...) { e.y("again", false); }
    };
    for (int i = g.range(5, 10); i-- > 0;) {
      int w = g.below(10);
      bool lis = g.chance(1, 3), dflt = lis && g.chance(1, 2), j = true;
      if (w < 3) {                 // IPv4 text
        std::string s = g.chance(1, 6) ? "" : v4(g);
        if (g.chance(3, 4)) s += ":" + port(g, j);
        if (s.find("255.255.255.255") == 0) continue;
        J e("parse");
        e.b("s", s).y("lis", lis);
        Exact x(s);
        try { Address a = dflt ? Address{x.view()} : Address{x.view(), lis}; e.y("ok", true); report(e, a, lis); }
        catch (const std::invalid_argument &) { e.y("ok", false); }
      } else if (w < 6) {          // IPv6 text
        std::string h = v6(g), s = h;
        if (g.chance(3, 4)) { s = "[" + h + "]"; if (g.chance(3, 4)) s += ":" + port(g, j); }
        J e("parse");
        e.b("s", s).y("lis", lis);
        Exact x(s);
        try { Address a = dflt ? Address{x.view()} : Address{x.view(), lis}; e.y("ok", true); report(e, a, lis); }
        catch (const std::invalid_argument &) { e.y("ok", false); }
      } else if (w < 8) {          // host and port apart
        std::string s = g.chance(1, 8) ? "" : g.chance(1, 2) ? v4(g) : v6(g);
        if (s == "255.255.255.255") continue;
        int p = g.pick(std::vector<int>{0, 1, 80, 65535, g.below(65536)});
        J e("pair");
        e.b("s", s).i("p", p).y("lis", lis);
        Exact x(s);
        try { Address a = dflt ? Address{x.view(), (uint16_t)p} : Address{x.view(), (uint16_t)p, lis}; e.y("ok", true); report(e, a, lis); }
        catch (const std::invalid_argument &) { e.y("ok", false); }
      } else if (w == 8) {         // what is no address
        std::string s = g.pick(std::vector<std::string>{"x", "x:", "1.2.3.256", "1.2.3.4.5:80", "[::g]:80", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "::1::2", "[12345::]:1",
            "host.name:80", "a.b.c.d", "[1:2:3]:4", ":::", "1.2.3.x:80", "[zz]:80", "2001:db8:::1", "example"});
        Exact x(s);
        J e("bad");
        e.b("s", s);
        try { Address a{x.view(), lis}; e.y("ok", true); } catch (const std::invalid_argument &) { e.y("ok", false); }
      } else {                     // from raw bytes
        Address::value_type b;
        int k = g.below(5), p = g.below(65536);
        sockaddr_in a4{};
        sockaddr_in6 a6{};
        sockaddr_un au{};
        std::string host;
        if (k == 0) {
          a4.sin_family = AF_INET; a4.sin_port = htons((uint16_t)p);
          for (int n = 0; n < 4; ++n) ((unsigned char *)&a4.sin_addr)[n] = (unsigned char)g.below(256);
          b.append((Address::value_type::value_type *)&a4, sizeof a4);
          host.assign((char *)&a4.sin_addr, 4);
        } else if (k == 1) {
          a6.sin6_family = AF_INET6; a6.sin6_port = htons((uint16_t)p);
          for (int n = 0; n < 16; ++n) ((unsigned char *)&a6.sin6_addr)[n] = (unsigned char)(g.chance(1, 2) ? 0 : g.below(256));
          b.append((Address::value_type::value_type *)&a6, sizeof a6);
          host.assign((char *)&a6.sin6_addr, 16);
        } else if (k == 2) {
          au.sun_family = AF_UNIX;
          std::string path = "/" + word(g, "ab/", 20).substr(0, 60);
          memcpy(au.sun_path, path.data(), path.size());
          b.append((Address::value_type::value_type *)&au, offsetof(sockaddr_un, sun_path) + path.size() + 1);
          try { Address a{b}; J("unix").b("s", path).b("r", a.host()).y("ok", a.family() == AF_UNIX); }
          catch (...) { J("unix").b("s", path).b("r", "").y("ok", false); }
          continue;
        } else {
          bool thrown = false, set = false;
          a4.sin_family = k == 3 ? AF_INET : 77;
          b.append((Address::value_type::value_type *)&a4, k == 3 ? 3 : sizeof a4);
          if (g.chance(1, 3)) b.clear();
          try { Address a{b}; } catch (const std::invalid_argument &) { thrown = true; }
          try { Address a{"1.2.3.4:5"}; a = b; } catch (const std::invalid_argument &) { set = true; }
          J("broken").y("thrown", thrown).y("set", set);
          continue;
        }
        if (k == 0 && (host == "\x7f\0\0\1"s || host == "\xff\xff\xff\xff"s)) continue;
        J e("raw");
        e.b("s", host).i("p", p);
        try {
          Address a;
          bool empty = !a;
          if (g.chance(1, 2)) a = b; else if (g.chance(1, 2)) a = Address{b}; else { auto c = b; a = Address{std::move(c)}; }
          e.y("ok", empty && (bool)a);
          report(e, a, false);
        } catch (...) { e.y("ok", false); }
      }
    }
  };
  return q;
}

// ------------------------------------------------------------------- dirs --
static int gone(const char *p, const struct stat *, int, struct FTW *) { return remove(p); }
static drv::Program dirs(uint64_t seed) {
  drv::Program q;
  q.scn = "{}";
  q.body = [seed] {
    drv::Rng g(seed);
    char root[] = "/tmp/h_text.XXXXXX";
    if (!mkdtemp(root) || chdir(root)) abort();
    umask(0);
    std::string base = g.chance(1, 2) ? std::string(root) + "/" : ""s;
    for (int i = g.range(4, 9); i-- > 0;) {
      std::vector<std::string> path;
      for (int n = g.range(1, 4); n-- > 0;) path.push_back(g.pick(std::vector<std::string>{"a", "b", "long name", "c.d"}));
      std::string p;
      for (auto &c : path) p += (p.empty() ? "" : "/") + c;
      int w = g.below(5);
      if (w < 3 && g.chance(1, 20)) {
        // nothing, or more than a path can be: a file system refuses it, so must makedir
        std::string arg = g.chance(1, 3) ? ""s : "a/" + std::string((size_t)g.pick(std::vector<int>{4092, 4093, 4094, 4095, 5000, 9000}), 'x');
        Exact x = zstr(arg);
        J("refused").i("n", (long)arg.size()).y("ok", plain::makedir(x.p));
        bool there = !access("a", F_OK);
        if (there) J("make").bs("p", {"a"}).y("ok", !access("a/.", F_OK));
      } else if (w < 3) {
        std::string arg = p;
        bool slash = g.chance(1, 3), back = g.chance(1, 5);
        if (slash) arg += '/';
        if (back) for (auto &c : arg) if (c == '/') c = '\\';
        Exact x = zstr(base + arg);
        J("make").bs("p", path).y("ok", plain::makedir(x.p));
      } else if (w == 3) {
        int f = open(p.c_str(), O_CREAT | O_WRONLY | O_EXCL, 0644);
        if (f >= 0) close(f);
        J("file").bs("p", path).y("ok", f >= 0);
      }
      for (size_t n = 1; n <= path.size(); ++n) {
        struct stat st;
        std::string s;
        std::vector<std::string> part(path.begin(), path.begin() + (long)n);
        for (auto &c : part) s += (s.empty() ? "" : "/") + c;
        bool there = !stat(s.c_str(), &st);
        J("look").bs("p", part).t("r", !there ? "none" : S_ISDIR(st.st_mode) ? "dir" : "file").t("mode", there && S_ISDIR(st.st_mode) ? std::to_string((st.st_mode >> 9 & 7) * 1000 + (st.st_mode >> 6 & 7) * 100 + (st.st_mode >> 3 & 7) * 10 + (st.st_mode & 7)) : "");
      }
    }
    if (chdir("/")) abort();
    if (std::string_view(root).starts_with("/tmp/h_text.")) nftw(root, gone, 16, FTW_DEPTH | FTW_PHYS);
  };
  return q;
}
int main(int argc, char **argv) {
  setenv("TZ", "UTC0", 1);
  tzset();
  return drv::run(argc, argv, {{"helpers", helpers}, {"codes", codes}, {"vars", vars}, {"addrs", addrs}, {"dirs", dirs}});
}
