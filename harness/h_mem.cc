// Memory pools: allocation, return (also by another thread), contents, bounds checks, foreign memory.
#include "driver.h"
#include <algorithm>
#include <atomic>
#include <cstring>
#include <iterator>
#include <limits>
#include <malloc.h>
#include <mutex>
#include <stdexcept>
#include <thread>
#include <unistd.h>
#include "plain/basic/config.h"
#include "plain/sys/memory/pool.h"
using plain::memory::Pool;

struct Op { std::string op; int b = 0; int n = 0; int off = 0; };
struct Prog { std::vector<std::vector<Op>> th; int blocks = 0; bool alone = false; };
static char *base;

template <class P, int LEAF, int COUNT, bool RAISE> struct World {
  const Prog &p;
  P pool;
  struct Blk { char *ptr = nullptr; int n = 0; bool busy = false; };
  std::vector<Blk> b;
  char outside[256] = {};
  explicit World(const Prog &p) : p(p), b(p.blocks + 1) {}
  static int rel(const void *q) { return (int)((const char *)q - base); }
  static char pat(int k, int i) { return (char)(k * 31 + i * 7 + 1); }
  bool same(int k) { vs::NoPreempt np; for (int i = 0; i < b[k].n; ++i) if (b[k].ptr[i] != pat(k, i)) return false; return true; }
  void get(int t, int k, int n, bool huge = false) {
    EV("\"e\":\"get\",\"t\":%d,\"b\":%d,\"n\":%d", t, k, huge ? 0 : n);
    char *q = nullptr;
    const char *how = "null";
    try { q = (char *)pool.malloc(huge ? (size_t)1 << (30 + n) : (size_t)n); } catch (const std::range_error &) { how = "throw"; }
    if (huge && q) { EV("\"e\":\"huge\",\"t\":%d,\"how\":\"got\"", t); return; }
    if (huge) { EV("\"e\":\"huge\",\"t\":%d,\"how\":\"%s\"", t, how); return; }
    if (!q) { EV("\"e\":\"none\",\"t\":%d,\"b\":%d,\"how\":\"%s\"", t, k, how); return; }
    EV("\"e\":\"got\",\"t\":%d,\"b\":%d,\"a\":%d,\"al\":%s", t, k, rel(q), (uintptr_t)q % 16 ? "false" : "true");
    for (int i = 0; i < n; ++i) q[i] = pat(k, i);
    vs::NoPreempt np;
    b[k].n = n;
    b[k].ptr = q;
  }
  bool claim(int k) { vs::NoPreempt np; if (!b[k].ptr || b[k].busy) return false; return b[k].busy = true; }
  void put(int t, int k) {
    EV("\"e\":\"put\",\"t\":%d,\"b\":%d,\"same\":%s", t, k, same(k) ? "true" : "false");
    const char *how = "ok";
    char *q = b[k].ptr;
    { vs::NoPreempt np; b[k].ptr = nullptr; b[k].busy = false; }
    try { pool.free(q); } catch (const std::range_error &) { how = "throw"; }
    EV("\"e\":\"putd\",\"t\":%d,\"how\":\"%s\"", t, how);
    if (p.alone && q[-16 + 8] == 0 && false) {}
  }
  void op(int t, const Op &o) {
    if (o.op == "get") return get(t, o.b, o.n);
    if (o.op == "huge") return get(t, o.b, o.n, true);
    if (o.op == "put") { if (claim(o.b)) put(t, o.b); return; }
    if (o.op == "twice") {           // return a block of a leaf twice
      if (!claim(o.b)) return;
      char *q = b[o.b].ptr;
      bool leaf = false;
      for (auto &l : area) if (l <= q && q < l + LEAF) leaf = true;
      put(t, o.b);
      if (!leaf) return;
      const char *r = "ok";
      try { pool.free(q); } catch (const std::range_error &) { r = "throw"; }
      EV("\"e\":\"foreign\",\"r\":\"%s\"", r);
      return;
    }
    if (o.op == "chk") {
      if (!claim(o.b)) return;
      const char *r = "out";
      try { if (pool.check_access(b[o.b].ptr, b[o.b].ptr + o.off, (size_t)o.n)) r = "in"; } catch (const std::range_error &) { r = "throw"; }
      EV("\"e\":\"chk\",\"b\":%d,\"off\":%d,\"n\":%d,\"r\":\"%s\"", o.b, o.off, o.n, r);
      vs::NoPreempt np;
      b[o.b].busy = false;
      return;
    }
    if (o.op == "foreign" || o.op == "fchk") {
      const char *r = o.op == "foreign" ? "ok" : "out";
      try { if (o.op == "foreign") pool.free(outside + 32 + 16 * o.n); else if (!pool.check_access(outside + 32, outside + 32, 1)) r = "ok"; } catch (const std::range_error &) { r = "throw"; }
      EV("\"e\":\"foreign\",\"r\":\"%s\"", r);
    }
  }
  std::vector<char *> area;
  void go() {
    // where the leaves are: blocks that fill them
    {
      vs::NoPreempt np;
      char *q[COUNT];
      int n = LEAF / 16 * 16 - 16;
      for (auto &x : q) x = (char *)pool.malloc(n);
      std::vector<char *> s(q, q + COUNT);
      std::sort(s.begin(), s.end());
      int l = 1;
      for (auto *x : s) { if (x) { EV("\"e\":\"leaf\",\"l\":%d,\"lo\":%d,\"hi\":%d", l, rel(x) - 16, rel(x) - 16 + LEAF); area.push_back(x - 16); } ++l; }
      for (auto &x : q) if (x) pool.free(x);
    }
    if (p.alone) { for (auto &o : p.th[0]) op(1, o); }
    else {
      std::vector<std::thread> th;
      for (size_t i = 0; i < p.th.size(); ++i) th.emplace_back([this, i] { for (auto &o : p.th[i]) op((int)i + 1, o); });
      for (auto &t : th) t.join();
    }
    for (int k = 1; k <= p.blocks; ++k) if (claim(k)) put(0, k);
    // all of it is there again
    for (int i = 0; i < COUNT; ++i) { b.push_back({}); get(0, p.blocks + 1 + i, LEAF / 16 * 16 - 32); }
    for (int i = 0; i < COUNT; ++i) if (claim(p.blocks + 1 + i)) put(0, p.blocks + 1 + i);
  }
};

static drv::Program build(uint64_t seed, bool alone) {
  drv::Rng g(seed);
  auto P = std::make_shared<Prog>();
  P->alone = alone;
  int v = g.below(4);
  int leaf = v == 0 ? 256 : v == 1 ? 250 : v == 2 ? 128 : 1024;
  int nt = alone ? 1 : g.range(2, 3);
  P->th.resize(nt);
  int per = alone ? g.range(6, 20) : g.range(3, 7);
  for (int i = 0; i < per * nt; ++i) {
    auto &t = P->th[i % nt];
    int x = g.below(100);
    Op o;
    if (P->blocks == 0 || x < 45) {
      o.op = "get"; o.b = ++P->blocks;
      o.n = g.pick(std::vector<int>{0, 1, 15, 16, 17, 30, leaf / 4, leaf / 3, leaf / 2 - 16, leaf / 2, leaf - 40, leaf - 16, leaf - 15, leaf, leaf + 20});
    } else if (x < 85) { o.op = alone && g.chance(1, 4) ? "twice" : "put"; o.b = g.range(std::max(1, P->blocks - 5), P->blocks); }
    else if (x < 95) { o.op = "chk"; o.b = g.range(1, P->blocks); o.off = g.pick(std::vector<int>{-1, 0, 0, 1, 15, 16}); o.n = g.pick(std::vector<int>{0, 1, 2, 14, 15, 16, 17, leaf / 4, leaf / 2}); }
    else if (x < 97) { o.op = "huge"; o.b = ++P->blocks; o.n = g.range(0, 8); }
    else { o.op = g.chance(1, 2) ? "foreign" : "fchk"; o.n = g.range(0, 6); }
    t.push_back(o);
  }
  drv::Program r;
  bool os = v == 1 || v == 3, raise = v != 3;
  r.scn = std::string("{\"os\":") + (os ? "true" : "false") + ",\"raise\":" + (raise ? "true" : "false") + "}";
  r.body = [P, v] {
    if (v == 0) { World<Pool<256, 2, 32, false, true>, 256, 2, true> w(*P); w.go(); }
    else if (v == 1) { World<Pool<250, 2, 40, true, true>, 250, 2, true> w(*P); w.go(); }
    else if (v == 2) { World<Pool<128, 3, 60, false, true>, 128, 3, true> w(*P); w.go(); }
    else { World<Pool<1024, 1, 200, true, false>, 1024, 1, false> w(*P); w.go(); }
  };
  return r;
}

int main(int argc, char **argv) {
  mallopt(M_ARENA_MAX, 1);
  mallopt(M_MMAP_THRESHOLD, 1 << 28);
  base = (char *)sbrk(0) - (1 << 20);
  base -= (uintptr_t)base % 16;
  return drv::run(argc, argv, {{"mem", [](uint64_t s) { return build(s, false); }}, {"mem1", [](uint64_t s) { return build(s, true); }}});
}
