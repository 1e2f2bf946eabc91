// Coroutines: resume_on, executor-started coroutines, lazy results, generators.
#include "driver.h"
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/make.h"
#include "plain/concurrency/result/promise.h"
#include "plain/concurrency/result/awaitable.h"
#include "plain/concurrency/result/lazy.h"
#include "plain/concurrency/result/generator.h"
#include "plain/concurrency/result/resume_on.h"
#include "values.h"
#include <optional>
#include <thread>
using namespace plain::concurrency;
namespace ex = plain::concurrency::executor;
using ms = std::chrono::milliseconds;
using val::Boom;

// ------------------------------------------------------------ resume_on
struct Hop { int x; int sleep; };
struct CoDef { int start; std::vector<Hop> hops; bool thr; };  // start: executor of an executor coroutine, -1 plain
struct RProg { std::vector<std::string> ex; std::vector<CoDef> cos; int sd; int sdx; };
struct RWorld {
  const RProg &p;
  std::vector<std::shared_ptr<ex::Basic>> e;
  std::vector<std::shared_ptr<ex::Manual>> man;
  std::vector<std::optional<Result<int>>> res;
  std::atomic<int> left{0};
  RWorld(const RProg &p) : p(p), res(p.cos.size()) {}
};
static Result<int> hops(RWorld *w, int c) {
  const CoDef &d = w->p.cos[c];
  for (auto &h : d.hops) {
    EV("\"e\":\"hop\",\"c\":%d,\"x\":%d,\"th\":%d", c, h.x, vs::tid());
    bool ok = true;
    try { co_await result::resume_on(w->e[h.x]); }
    catch (const std::exception &) { ok = false; }
    EV("\"e\":\"%s\",\"c\":%d,\"x\":%d,\"th\":%d", ok ? "on" : "err", c, h.x, vs::tid());
    if (h.sleep) std::this_thread::sleep_for(ms(h.sleep));
  }
  EV("\"e\":\"cfin\",\"c\":%d", c);
  if (d.thr) throw Boom{c};
  co_return c;
}
template <class E> static Result<int> started(executor_tag, std::shared_ptr<E>, RWorld *w, int c) {
  EV("\"e\":\"on\",\"c\":%d,\"x\":%d,\"th\":%d", c, w->p.cos[c].start, vs::tid());
  auto r = hops(w, c);
  int v = co_await r;
  co_return v;
}
static drv::Program resume(uint64_t seed) {
  drv::Rng g(seed);
  auto P = std::make_shared<RProg>();
  static const std::vector<std::string> kinds = {"inline", "manual", "thread", "worker", "pool"};
  int ne = g.range(1, 3);
  for (int i = 0; i < ne; ++i) P->ex.push_back(g.pick(kinds));
  int nc = g.range(1, 3);
  for (int i = 0; i < nc; ++i) {
    CoDef d;
    d.start = g.chance(1, 2) ? -1 : g.below(ne);
    int n = g.range(0, 3);
    for (int j = 0; j < n; ++j) d.hops.push_back({g.below(ne), g.chance(1, 4) ? g.range(1, 2) : 0});
    d.thr = g.chance(1, 5);
    P->cos.push_back(d);
  }
  P->sd = g.chance(1, 2) ? -1 : g.range(0, 4);
  P->sdx = g.below(ne);
  drv::Program p;
  std::string s = "{\"ex\":[", sep;
  for (auto &k : P->ex) { s += sep + "\"" + k + "\""; sep = ","; }
  s += "],\"cos\":[";
  sep = "";
  for (auto &c : P->cos) { s += sep + "{\"start\":" + std::to_string(c.start) + ",\"thr\":" + (c.thr ? "true" : "false") + ",\"n\":" + std::to_string(c.hops.size()) + "}"; sep = ","; }
  p.scn = s + "]}";
  p.opt.early_timeout = g.chance(1, 3) ? 0.02 : 0;
  p.body = [P] {
    auto *w = new RWorld(*P);
    EV("\"e\":\"ht\",\"th\":%d", vs::tid());
    std::vector<std::thread> loops;
    std::atomic<bool> stop{false};
    for (size_t i = 0; i < P->ex.size(); ++i) {
      const auto &k = P->ex[i];
      auto cb = [i](std::string_view) { EV("\"e\":\"thr\",\"x\":%d,\"th\":%d", (int)i, vs::tid()); };
      std::shared_ptr<ex::Manual> m;
      if (k == "inline") w->e.push_back(std::make_shared<ex::Inline>());
      else if (k == "thread") w->e.push_back(std::make_shared<ex::Thread>(cb));
      else if (k == "worker") w->e.push_back(std::make_shared<ex::WorkerThread>(cb));
      else if (k == "pool") w->e.push_back(std::make_shared<ex::ThreadPool>("p", 2, ms(3), cb));
      else { m = std::make_shared<ex::Manual>(); w->e.push_back(m); }
      w->man.push_back(m);
    }
    for (size_t i = 0; i < P->ex.size(); ++i)
      if (w->man[i])
        loops.emplace_back([w, i, &stop] {
          EV("\"e\":\"thr\",\"x\":%d,\"th\":%d", (int)i, vs::tid());
          try { while (!stop) w->man[i]->loop_once_for(ms(20)); } catch (const std::exception &) {}
        });
    std::vector<std::thread> th;
    auto sd = [w](int x) {
      EV("\"e\":\"sd\",\"x\":%d", x);
      w->e[x]->shutdown();
      EV("\"e\":\"sdr\",\"x\":%d", x);
    };
    if (P->sd >= 0) th.emplace_back([&] {
      EV("\"e\":\"ht\",\"th\":%d", vs::tid());
      if (P->sd) std::this_thread::sleep_for(ms(P->sd));
      sd(P->sdx);
    });
    for (size_t c = 0; c < P->cos.size(); ++c)
      th.emplace_back([w, c, P] {
        EV("\"e\":\"ht\",\"th\":%d", vs::tid());
        EV("\"e\":\"cstart\",\"c\":%d,\"x\":%d,\"th\":%d", (int)c, P->cos[c].start, vs::tid());
        if (P->cos[c].start < 0) w->res[c] = hops(w, (int)c);
        else w->res[c] = started(executor_tag{}, w->e[P->cos[c].start], w, (int)c);
      });
    for (auto &t : th) t.join();
    vs::set_early_timeout(0);
    for (size_t c = 0; c < P->cos.size(); ++c)
      w->res[c]->wait_for(std::chrono::seconds(1));
    EV("\"e\":\"settled\"");
    for (size_t c = 0; c < P->cos.size(); ++c) {
      std::string r;
      if (w->res[c]->status() == ResultStatus::Idle) r = "idle";
      else try { int v = w->res[c]->get(); r = v == (int)c ? "val" : "wrong"; }
        catch (const Boom &b) { r = b.v == (int)c ? "exc" : "wrong"; }
        catch (const std::exception &) { r = "broken"; }
      EV("\"e\":\"got\",\"c\":%d,\"r\":\"%s\"", (int)c, r.c_str());
    }
    stop = true;
    for (size_t x = 0; x < w->e.size(); ++x) w->e[x]->shutdown();
    for (auto &t : loops) t.join();
  };
  return p;
}

// ------------------------------------------------------------ lazy, generator
// A script over lazy results 1..n: one line of control that may move from thread to thread.
struct LDef { bool thr; int nest; int susp; };   // susp: the body waits for another thread
struct LOp { std::string op; int i; bool blk; bool tmp = false; };
struct LProg { std::vector<LDef> defs; std::vector<LOp> ops; int ty; };
struct LWorld { const LProg &p; std::vector<std::thread> th; std::atomic<bool> done{false}; };
template <class T> static LazyResult<T> lazy(LWorld *w, int i, val::Counted) {
  const LDef &d = w->p.defs[i];
  EV("\"e\":\"lstart\",\"i\":%d", i);
  if (d.susp) {
    ResultPromise<int> pr;
    auto r = pr.get_result();
    { vs::NoPreempt np; w->th.emplace_back([pr = std::move(pr), n = d.susp]() mutable { if (n > 1) std::this_thread::sleep_for(ms(n)); pr.set_result(1); }); }
    co_await r;
  }
  if (d.nest) {
    auto sub = lazy<T>(w, d.nest, {});
    try { co_await sub; } catch (const Boom &) {}
  }
  EV("\"e\":\"lfin\",\"i\":%d", i);
  if (d.thr) throw Boom{i};
  if constexpr (std::is_void_v<T>) co_return;
  else if constexpr (std::is_reference_v<T>) co_return val::cells[i];
  else co_return T(i);
}
template <class T> static result::null lscript(LWorld *w) {
  auto &defs = w->p.defs;
  std::vector<LazyResult<T>> v(defs.size());
  for (auto &o : w->p.ops) {
    EV("\"e\":\"call\",\"op\":\"%s\",\"i\":%d", o.op.c_str(), o.i);
    std::string r = "ok";
    auto &l = v[o.i];
    if (o.op == "make") l = lazy<T>(w, o.i, {});
    else if (o.op == "drop") l = LazyResult<T>();
    else if (o.op == "move") { LazyResult<T> t(std::move(l)); r = l ? "full" : "ok"; l = std::move(t); }
    else {
      try {
        if (o.op == "status") { auto s = l.status(); r = s == ResultStatus::Idle ? "idle" : s == ResultStatus::Value ? "value" : "exception"; }
        else if (o.op == "resolve") { l = co_await l.resolve(); }
        else if (o.op == "await") {
          if constexpr (std::is_void_v<T>) { co_await l; r = "val0"; } else { T x = co_await l; r = val::show(x); }
        }
        else if (o.op == "run") {
          Result<T> res;
          if (o.tmp) { LazyResult<T> t(std::move(l)); res = t.run(); }
          else res = l.run();
          if (l) r = "full";
          else if (o.blk) r = val::got<T>([&]() -> decltype(auto) { return res.get(); });
          else if constexpr (std::is_void_v<T>) { co_await res; r = "val0"; }
          else { T x = co_await res; r = val::show(x); }
        }
      }
      catch (const Boom &b) { r = "exc" + std::to_string(b.v); }
      catch (const std::exception &) { r = "empty"; }
    }
    EV("\"e\":\"ret\",\"op\":\"%s\",\"i\":%d,\"r\":\"%s\"", o.op.c_str(), o.i, r.c_str());
  }
  v.clear();
  w->done = true;
}
static drv::Program lazyp(uint64_t seed) {
  drv::Rng g(seed);
  auto p = std::make_shared<LProg>();
  p->ty = g.below(4);
  bool async = g.chance(1, 2);
  int n = g.range(1, 4);
  p->defs.resize(n + 1);
  for (int i = 1; i <= n; ++i)
    p->defs[i] = {g.chance(1, 3), i > 1 && g.chance(1, 2) ? g.range(1, i - 1) : 0, async && g.chance(1, 2) ? g.range(1, 4) : 0};
  static const std::vector<std::string> ops = {"make", "make", "status", "resolve", "await", "run", "drop", "move"};
  int m = g.range(2, 10);
  for (int i = 0; i < m; ++i) p->ops.push_back({i == 0 ? "make" : g.pick(ops), g.range(1, n), g.chance(1, 2), g.chance(1, 3)});
  drv::Program q;
  std::string s;
  for (int i = 1; i <= n; ++i)
    s += std::string(i > 1 ? "," : "") + "{\"thr\":" + (p->defs[i].thr ? "true" : "false") + ",\"nest\":" + std::to_string(p->defs[i].nest) + "}";
  q.scn = "{\"defs\":[" + s + "],\"void\":" + (p->ty == 1 ? "true" : "false") + "}";
  q.body = [p] {
    {
      LWorld w{*p, {}};
      w.th.reserve(256);
      val::with(p->ty, [&](auto t) { lscript<typename decltype(t)::type>(&w); });
      for (int i = 0; i < 200 && !w.done; ++i) std::this_thread::sleep_for(ms(10));
      EV("\"e\":\"over\",\"done\":%s", w.done ? "true" : "false");
      for (size_t i = 0; i < w.th.size(); ++i) w.th[i].join();
    }
    EV("\"e\":\"live\",\"n\":%d", val::live.load());
  };
  return q;
}

template <class T> static result::Generator<T> gen(int n, int thr, bool lval, val::Counted) {
  struct D { int n; ~D() { EV("\"e\":\"gdone\""); } } d{n};
  for (int i = 1; i <= n; ++i) {
    EV("\"e\":\"gmake\",\"v\":%d", i);
    if (i == thr) throw Boom{i};
    if constexpr (std::is_reference_v<T>) co_yield val::cells[i];
    else if (lval) { T x(i); co_yield x; }
    else co_yield T(i);
  }
  EV("\"e\":\"gend\"");
}
template <class T> static void gen_body(int n, int thr, int take, bool lval, bool post) {
  auto g0 = gen<T>(n, thr, lval, {});
  result::Generator<T> g1(std::move(g0));
  EV("\"e\":\"gnew\",\"empty\":%s", g0 ? "false" : "true");
  std::string r = "stopped";
  int k = 0;
  auto num = [](auto &x) { return atoi(val::show(x).c_str() + 3); };
  try {
    if (take == 99) {
      for (auto &x : g1) { EV("\"e\":\"gval\",\"v\":%d", num(x)); }
      r = "end";
    }
    else if (take > 0) {
      auto it = g1.begin();
      while (it != g1.end()) {
        EV("\"e\":\"gval\",\"v\":%d", num(*it));
        if (++k == take) break;
        if (post) it++; else ++it;
      }
      if (it == g1.end()) r = "end";
    }
  } catch (const Boom &b) { r = "exc"; }
  EV("\"e\":\"gres\",\"r\":\"%s\"", r.c_str());
}
static drv::Program genp(uint64_t seed) {
  drv::Rng g(seed);
  int n = g.range(0, 5), thr = g.chance(1, 3) ? g.range(1, 5) : 0, take = g.chance(1, 2) ? 99 : g.range(0, 4);
  bool lval = g.chance(1, 2), post = g.chance(1, 2);
  int ty = g.below(3);
  drv::Program q;
  q.scn = "{\"n\":" + std::to_string(n) + ",\"thr\":" + std::to_string(thr) + ",\"take\":" + std::to_string(take) + "}";
  q.body = [=] {
    if (ty == 0) gen_body<int>(n, thr, take, lval, post);
    else if (ty == 1) gen_body<val::Tr>(n, thr, take, lval, post);
    else gen_body<int &>(n, thr, take, lval, post);
    EV("\"e\":\"over\"");
    EV("\"e\":\"live\",\"n\":%d", val::live.load());
  };
  return q;
}

int main(int argc, char **argv) {
  return drv::run(argc, argv, {{"resume", resume}, {"lazy", lazyp}, {"gen", genp}});
}
