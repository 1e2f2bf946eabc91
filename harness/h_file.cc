// Configuration files and tables, read from files that exist in memory only.
#include "driver.h"
#include <cmath>
#include <memory>
#include <sys/mman.h>
#include <unistd.h>
#include "plain/basic/type/variable.h"
#include "plain/file/ini.h"
#include "plain/file/tab.h"
using plain::Ini;
using plain::Tab;
namespace {
using Bytes = std::string;
std::string arr(std::string_view s) {
  std::string r = "[";
  for (size_t i = 0; i < s.size(); ++i) { if (i) r += ','; r += std::to_string((unsigned char)s[i]); }
  return r + "]";
}
const char *yes(bool b) { return b ? "yes" : "no"; }
struct MemFile {                 // a name under which a content can be opened
  int fd;
  std::string name;
  explicit MemFile(const Bytes &b = {}) : fd(memfd_create("f", 0)), name("/proc/self/fd/" + std::to_string(fd)) {
    if (fd < 0 || write(fd, b.data(), b.size()) != (ssize_t)b.size()) abort();
  }
  ~MemFile() { close(fd); }
  Bytes content() const {
    Bytes r;
    char buf[4096];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t n; (n = read(fd, buf, sizeof buf)) > 0;) r.append(buf, (size_t)n);
    return r;
  }
};
struct Exact {                   // a heap block of exactly the size
  char *p; size_t n;
  explicit Exact(std::string_view s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
  ~Exact() { delete[] p; }
};
std::string milli(double v) {
  double m = std::round(v * 1000);
  return std::isfinite(m) && m < 1000000 && m > -1000000 ? std::to_string((long)m) : m < 0 ? "-1000000000" : "1000000000";
}
std::string number(drv::Rng &g, bool fraction, bool plain) {
  std::string s;
  if (!plain && g.chance(1, 5)) s += g.chance(1, 2) ? " " : "\t";
  int w = g.range(0, 3);
  long v = w == 0 ? g.range(0, 9) : w == 1 ? g.range(1, 999) : w == 2 && !fraction ? g.range(1, 99999999) : g.range(10, 99);
  if (v && g.chance(1, 3)) s += '-'; else if (!plain && g.chance(1, 8)) s += '+';
  s += std::to_string(v);
  if (fraction && g.chance(2, 3)) { s += '.'; for (int i = g.range(1, 3); i-- > 0;) s += (char)('0' + g.below(10)); }
  if (!plain && g.chance(1, 6)) s += g.chance(1, 2) ? "k" : " b";
  return s;
}
std::string word(drv::Rng &g, const char *from, int most) {
  std::string s;
  int n = g.chance(1, 40) ? g.range(200, 900) : g.range(0, most), m = (int)strlen(from);
  while (n-- > 0) s += from[g.below(m)];
  return s;
}
// ---------------------------------------------------------------- ini
struct IOp { std::string op; Bytes b; std::string s, k; int d = 0, size = 1; };
struct IP { std::vector<IOp> ops; };
Bytes ini_text(drv::Rng &g, std::vector<std::string> &secs, std::vector<std::string> &keys) {
  Bytes b;
  int n = g.chance(1, 12) ? g.range(20, 40) : g.range(0, 9);
  bool crlf = g.chance(1, 4);
  for (int i = 0; i < n; ++i) {
    int c = g.below(12);
    if (c < 2) b += "[" + g.pick(secs) + "]";
    else if (c < 7) {
      b += g.pick(keys) + "=";
      int v = g.below(4);
      b += v == 0 ? number(g, false, false) : v == 1 ? number(g, true, false) : word(g, "bkz=[] ", 8);
    }
    else if (c == 7) b += "; " + word(g, "bk=[]", 5);
    else if (c == 8) b += std::string((size_t)g.below(3), ' ');
    else b += word(g, "bk=[]; \tz", 7);
    if (g.chance(1, 6)) b += g.chance(1, 2) ? " \t" : "  ;b=k";
    if (i + 1 < n || g.chance(3, 4)) b += crlf || g.chance(1, 12) ? "\r\n" : "\n";
  }
  if (g.chance(1, 30)) {         // more than one buffer
    b += "\n[" + g.pick(secs) + "]\n";
    for (int i = 0; i < 3; ++i) { b += g.pick(keys) + "=" + std::string((size_t)g.range(900, 1030), 'a' + (char)g.below(3)) + "\n"; }
  }
  return b;
}
} // namespace
static drv::Program ini(uint64_t seed) {
  drv::Rng g(seed);
  auto p = std::make_shared<IP>();
  std::vector<std::string> secs{"s", "", "b", "sb", "s s"}, keys{"k", "kk", "", "b", " k", "k "};
  if (g.chance(1, 20)) { secs.push_back(std::string(300, 'q')); keys.push_back(std::string(1500, 'w')); }
  int m = g.range(1, 14);
  p->ops.push_back({"open", ini_text(g, secs, keys)});
  for (int i = 0; i < m; ++i) {
    static const char *names[] = {"open", "close", "missing", "all", "int", "intif", "float", "floatif", "str", "strif",
                                  "string", "var", "gint", "gfloat", "str", "all"};
    IOp o{names[g.below(16)]};
    if (o.op == "open") o.b = ini_text(g, secs, keys);
    o.s = g.pick(secs); o.k = g.pick(keys);
    o.d = g.range(-9, 9); o.size = g.chance(1, 3) ? g.range(1, 4) : g.chance(1, 10) ? 2000 : g.range(5, 40);
    p->ops.push_back(o);
  }
  p->ops.push_back({"all"});
  drv::Program q;
  q.scn = "{}";
  q.body = [p] {
    std::unique_ptr<Ini> t;
    bool first = true;
    for (auto &o : p->ops) {
      if (o.op == "open") {
        MemFile f(o.b);
        bool ok = true;
        if (first && o.d == 0 && o.b.size() % 2) { t = std::make_unique<Ini>(f.name.c_str()); }
        else { if (!t) t = std::make_unique<Ini>(); ok = t->open(f.name.c_str()); }
        first = false;
        EV("\"e\":\"open\",\"ok\":\"%s\",\"b\":%s", yes(ok), arr(o.b).c_str());
      } else if (o.op == "missing") {
        std::string n = "/proc/self/fd/none" + std::string((size_t)(o.size > 900 ? 300 : 1), 'n');
        EV("\"e\":\"missing\",\"ok\":\"%s\"", yes(t->open(n.c_str())));
      } else if (o.op == "close") { t->close(); EV("\"e\":\"close\""); }
      else if (o.op == "all") {
        std::string s, v;
        for (auto &[n, set] : *t->getdata()) {
          s += (s.empty() ? "" : ",") + arr(n);
          for (auto &[k, pos] : *set) {
            const char *x = t->getstring(pos);
            v += (v.empty() ? "[" : ",[") + arr(n) + "," + arr(k) + "," + (x ? arr(x) : "[0]") + "]";
          }
        }
        EV("\"e\":\"all\",\"secs\":[%s],\"vals\":[%s]", s.c_str(), v.c_str());
      } else {
        const char *s = o.s.c_str(), *k = o.k.c_str();
        std::string ok, r, txt;
        std::string f = o.op;
        std::string init = std::string((size_t)std::min(o.size - 1, 4), 'Q');
        std::string dt = init;
        if (f == "int") r = std::to_string(t->getint32(s, k, o.d));
        else if (f == "gint") { f = "int"; r = std::to_string(t->get<int32_t>(o.s, o.k, o.d)); }
        else if (f == "intif") { int32_t v = o.d; ok = yes(t->getint32_ifexist(s, k, v)); r = std::to_string(v); }
        else if (f == "float") r = milli(t->getfloat(s, k, (float)o.d));
        else if (f == "gfloat") { f = "float"; r = milli(t->get<float>(o.s, o.k, (float)o.d)); }
        else if (f == "floatif") { float v = (float)o.d; ok = yes(t->getfloat_ifexist(s, k, v)); r = milli(v); }
        else if (f == "str" || f == "strif") {
          char *buf = new char[(size_t)o.size];
          strcpy(buf, init.c_str());
          if (f == "str") { dt = std::string("default"); ok = yes(t->getstring(s, k, buf, o.size, "default")); }
          else ok = yes(t->getstring_ifexist(s, k, buf, o.size));
          size_t n = strnlen(buf, (size_t)o.size);
          txt = n < (size_t)o.size ? std::string(buf) : std::string("\1unterminated");
          delete[] buf;
        }
        else if (f == "string") { dt = "default"; txt = t->get<std::string>(o.s, o.k, "default"); }
        else { plain::variable_t v; v = "default"; dt = "default"; t->get(s, k, v); txt = v.get<std::string>(); }
        EV("\"e\":\"get\",\"f\":\"%s\",\"s\":%s,\"k\":%s,\"d\":%d,\"dt\":%s,\"size\":%d,\"ok\":\"%s\",\"r\":\"%s\",\"t\":%s", f.c_str(),
           arr(o.s).c_str(), arr(o.k).c_str(), o.d, arr(dt).c_str(), o.size, ok.c_str(), r.c_str(), arr(txt).c_str());
      }
    }
  };
  return q;
}
// ---------------------------------------------------------------- tab
namespace {
struct TOp { std::string op; Bytes b; int l = 0, c = 0; std::string n; std::vector<std::string> cells; int mut = 0; uint64_t seed = 0; };
struct TP { std::vector<TOp> ops; };
Bytes tab_text(drv::Rng &g, std::vector<std::string> &names) {
  static const char *ty[] = {"INT", "FLOAT", "STRING"};
  Bytes b;
  int n = g.range(1, 4);
  std::vector<int> t;
  auto sep = [&] { return g.chance(1, 25) ? "\t\t" : "\t"; };
  auto eol = [&] { b += g.chance(1, 6) ? "\r\n" : g.chance(1, 15) ? "\n\n" : "\n"; };
  if (g.chance(1, 60)) b += "\n";
  for (int i = 0; i < n; ++i) { t.push_back(g.chance(1, 2) && i == 0 ? 0 : g.below(3)); b += ty[t.back()]; if (g.chance(1, 60)) b += "X"; if (i + 1 < n || g.chance(1, 10)) b += sep(); }
  if (g.chance(1, 50)) return b;
  eol();
  int k = g.chance(1, 10) ? g.range(1, 5) : n;
  for (int i = 0; i < k; ++i) { b += g.pick(names); if (i + 1 < k) b += sep(); }
  if (g.chance(1, 30)) return b;
  eol();
  int m = g.chance(1, 15) ? g.range(20, 60) : g.range(0, 8);
  for (int r = 0; r < m; ++r) {
    if (g.chance(1, 10)) { b += "#" + word(g, "bk\t1", 5); eol(); continue; }
    int cs = g.chance(1, 6) ? g.range(1, n + 1) : n;
    for (int i = 0; i < cs; ++i) {
      int ct = i < n ? t[i] : 2;
      if (ct == 2) b += g.chance(1, 3) ? std::string(1, "abc"[g.below(3)]) : word(g, "bkz #%", 6);
      else if (!g.chance(1, 12)) b += ct == 0 && g.chance(1, 2) ? std::to_string(g.range(0, 3)) : number(g, ct == 1, g.chance(2, 3));
      if (i + 1 < cs) b += '\t';
    }
    eol();
  }
  return b;
}
void cell(std::string &s, const Tab &t, const Tab::field_data *f, int type) {
  (void)t;
  if (!f) return;
  if (type == Tab::kTypeInt) s = ",\"i\":" + std::to_string(f->int_value);
  else if (type == Tab::kTypeFloat) s = ",\"i\":" + milli(f->float_value);
  else s = ",\"t\":" + arr(f->string_value);
}
} // namespace
static drv::Program tab(uint64_t seed) {
  drv::Rng g(seed);
  auto p = std::make_shared<TP>();
  std::vector<std::string> names{"a", "b", "id", "a%s%n", "abc", std::string(80, 'n')};
  int m = g.range(2, 14);
  p->ops.push_back({"open", tab_text(g, names)});
  for (int i = 0; i < m; ++i) {
    static const char *ops[] = {"open", "file", "index", "save", "load", "size", "type", "name", "column", "at",
                                "named", "byindex", "find", "text", "hostile", "at", "find", "byindex", "sweep", "sweep"};
    TOp o{ops[g.below(20)]};
    if (o.op == "open" || o.op == "file") o.b = tab_text(g, names);
    o.l = g.range(-1, 8); o.c = g.range(-1, 4); o.n = g.chance(1, 8) ? "none" : g.pick(names); o.seed = g.next();
    p->ops.push_back(o);
    if (o.op == "save") { TOp l{"load"}; if (g.chance(1, 2)) p->ops.push_back(l); }
  }
  p->ops.push_back({"sweep"});
  drv::Program q;
  q.scn = "{}";
  q.body = [p] {
    auto t = std::make_unique<Tab>(7u);
    MemFile disk;
    for (auto &o : p->ops) {
      auto in = [&](int c) { return c >= 0 && c < t->get_field_number(); };
      auto at = [&](int l, int c) {
        auto f = t->search_position(l, c);
        std::string s;
        cell(s, *t, f, in(c) ? t->get_fieldtype(c) : 0);
        EV("\"e\":\"at\",\"l\":%d,\"c\":%d,\"ok\":\"%s\"%s", l, c, yes(f), s.c_str());
      };
      auto line = [&](const Tab::field_data *f) {   // -2: somewhere within a line
        if (!f) return -1;
        auto d = f - t->search_position(0, 0);
        return d % t->get_field_number() ? -2 : (int)(d / t->get_field_number());
      };
      if (o.op == "open") {
        Exact x(o.b);
        EV("\"e\":\"open\",\"ok\":\"%s\",\"b\":%s", yes(t->open_from_memory(x.p, x.p + x.n, "mem")), arr(o.b).c_str());
      } else if (o.op == "file") {
        MemFile f(o.b);
        EV("\"e\":\"open\",\"ok\":\"%s\",\"b\":%s", yes(t->open_from_txt(f.name.c_str())), arr(o.b).c_str());
      } else if (o.op == "index") { t->create_index(o.c, "mem"); EV("\"e\":\"index\",\"c\":%d", o.c); }
      else if (o.op == "save") { t->save_tobinary(disk.name.c_str()); EV("\"e\":\"save\""); }
      else if (o.op == "load") {
        bool ok;
        if (o.seed % 2) ok = t->open_from_txt(disk.name.c_str());
        else { Bytes b = disk.content(); Exact x(b); ok = t->open_from_memory(x.p, x.p + x.n); }
        EV("\"e\":\"load\",\"ok\":\"%s\"", yes(ok));
      } else if (o.op == "size") EV("\"e\":\"size\",\"r\":%d,\"c\":%d", t->get_record_number(), t->get_field_number());
      else if (o.op == "type") {
        static const char *n[] = {"int", "float", "text"};
        if (in(o.c)) EV("\"e\":\"type\",\"c\":%d,\"r\":\"%s\"", o.c, n[t->get_fieldtype(o.c)]);
      } else if (o.op == "name") {
        const char *n = t->get_fieldname(o.c);
        if (in(o.c) || o.c < 0) EV("\"e\":\"name\",\"c\":%d,\"r\":\"%s\",\"t\":%s", o.c, yes(n), arr(n ? n : "").c_str());
      } else if (o.op == "column") {
        if (t->get_field_number() > 0) EV("\"e\":\"column\",\"n\":%s,\"r\":%d", arr(o.n).c_str(), t->get_fieldindex(o.n.c_str()));
      } else if (o.op == "at") at(o.l, o.c);
      else if (o.op == "named") {
        if (t->get_field_number() == 0) continue;
        auto f = t->get_fielddata(o.l, o.n.c_str());
        std::string s;
        int c = t->get_fieldindex(o.n.c_str());
        cell(s, *t, f, in(c) ? t->get_fieldtype(c) : 0);
        EV("\"e\":\"named\",\"l\":%d,\"n\":%s,\"ok\":\"%s\"%s", o.l, arr(o.n).c_str(), yes(f), s.c_str());
      } else if (o.op == "byindex" || o.op == "find") {
        // a value that is there, or one that hardly is
        int c = o.c, rows = t->get_record_number();
        bool by = o.op == "byindex";
        const Tab::field_data *have = rows > 0 && in(c) && o.seed % 4 ? t->search_position((int)(o.seed / 4 % (uint64_t)rows), c) : nullptr;
        if (by) {
          int v = have && t->get_fieldtype(c) == Tab::kTypeInt ? have->int_value : (int)(o.seed % 5);
          static thread_local int dummy; (void)dummy;
          EV("\"e\":\"byindex\",\"v\":%d,\"r\":%d", v, line(t->search_index_equal(v)));
        } else {
          Tab::field_data v;
          std::string s, x = "b";
          if (!in(c)) { v.int_value = 1; s = "1"; }
          else if (t->get_fieldtype(c) == Tab::kTypeInt) { v.int_value = have ? have->int_value : 3; s = std::to_string(v.int_value); }
          else if (t->get_fieldtype(c) == Tab::kTypeFloat) {
            v.float_value = have ? have->float_value : 2.5f; s = milli(v.float_value); if (s.size() > 8) continue;
          } else { if (have) x = have->string_value; v.string_value = x.c_str(); s = arr(x); }
          EV("\"e\":\"find\",\"c\":%d,\"v\":%s,\"r\":%d", c, s.c_str(), line(t->search_first_column_equal(c, v)));
        }
      } else if (o.op == "text") {
        if (t->get_field_number() == 0) continue;
        bool large = false;
        for (int l = 0; l < t->get_record_number(); ++l)
          for (int c = 0; c < t->get_field_number(); ++c)
            large = large || (t->get_fieldtype(c) == Tab::kTypeFloat && milli(t->search_position(l, c)->float_value).size() > 8);
        if (large) continue;
        MemFile f; t->save_totext(f.name.c_str()); EV("\"e\":\"text\",\"b\":%s", arr(f.content()).c_str()); }
      else if (o.op == "sweep") {
        EV("\"e\":\"size\",\"r\":%d,\"c\":%d", t->get_record_number(), t->get_field_number());
        for (int l = 0; l < t->get_record_number(); ++l) for (int c = 0; c < t->get_field_number(); ++c) at(l, c);
      } else if (o.op == "hostile") {   // a binary table that somebody changed is refused or readable
        MemFile f;
        t->save_tobinary(f.name.c_str());
        Bytes b = f.content();
        drv::Rng h(o.seed);
        for (int i = h.range(0, 3); i-- > 0 && b.size() > 4;) {
          int w = h.below(4);
          if (w == 3 && b.size() >= 16) {   // a text that lies (just) outside
            uint32_t at[4];
            memcpy(at, b.data(), 16);
            int sc = -1;
            for (int c = 0; c < t->get_field_number(); ++c) if (t->get_fieldtype(c) == Tab::kTypeString) sc = c;
            if (sc < 0 || t->get_record_number() == 0) continue;
            size_t k = 16 + 4 * (size_t)t->get_field_number() +
                8 * (size_t)(h.below(t->get_record_number()) * t->get_field_number() + sc);
            uint64_t pos = at[3] + (uint64_t)h.below(3) - 1;
            if (k + 8 <= b.size()) memcpy(&b[k], &pos, 8);
          } else if (w == 0) b.resize((size_t)h.range(4, (int)b.size()));
          else {
            size_t k = w == 1 ? 4 + (size_t)h.below(12) : 4 + (size_t)h.below((int)b.size() - 4);
            if (k < b.size()) b[k] = (char)(h.chance(1, 2) ? h.pick(std::vector<int>{0, 1, 127, 128, 255}) : h.below(256));
          }
        }
        Exact x(b);
        Tab y(8u);
        long sum = 0;
        if (y.open_from_memory(x.p, x.p + x.n, "hostile"))
          for (int l = 0; l < y.get_record_number(); ++l)
            for (int c = 0; c < y.get_field_number(); ++c) {
              auto d = y.search_position(l, c);
              if (y.get_fieldtype(c) == Tab::kTypeString) sum += (long)strlen(d->string_value); else sum += d->int_value;
            }
        static volatile long sink; sink = sum;
        EV("\"e\":\"hostile\"");
      }
    }
  };
  return q;
}
int main(int argc, char **argv) { return drv::run(argc, argv, {{"ini", ini}, {"tab", tab}}); }
