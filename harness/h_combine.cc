// Shared results, when_all / when_any, resume_on.
#include "driver.h"
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/make.h"
#include "plain/concurrency/result/promise.h"
#include "plain/concurrency/result/awaitable.h"
#include "plain/concurrency/result/shared.h"
#include "plain/concurrency/result/when.h"
#include "plain/concurrency/result/resume_on.h"
#include "values.h"
#include <optional>
#include <thread>
using namespace plain::concurrency;
namespace ex = plain::concurrency::executor;
using ms = std::chrono::milliseconds;
using val::Boom;
static const char *stname(ResultStatus s) {
  return s == ResultStatus::Idle ? "idle" : s == ResultStatus::Value ? "value" : "exception";
}
struct Prod { std::string kind; int v; int delay; };
static Prod rprod(drv::Rng &g, int v) {
  static const std::vector<std::string> k = {"val", "val", "val", "exc", "broken"};
  return {g.pick(k), v, g.chance(1, 2) ? 0 : g.range(1, 6)};
}
static std::string ojson(const Prod &p, int ty) {
  std::string s = p.kind == "broken" ? "broken" : p.kind + std::to_string(ty == 1 && p.kind == "val" ? 0 : p.v);
  return "{\"s\":\"" + s + "\",\"st\":\"" + (p.kind == "val" ? "value" : "exception") + "\"}";
}
template <class T> static void produce(ResultPromise<T> pr, const Prod &p, int i) {
  if (p.delay > 0) std::this_thread::sleep_for(ms(p.delay));
  EV("\"e\":\"pcall\",\"p\":%d", i);
  if (p.kind == "val") { if constexpr (std::is_void_v<T>) pr.set_result(); else pr.set_result(val::mk<T>(p.v)); }
  else if (p.kind == "exc") pr.set_exception(std::make_exception_ptr(Boom{p.v}));
  else { ResultPromise<T> q(std::move(pr)); }
  EV("\"e\":\"pret\",\"p\":%d", i);
}

// ---------------------------------------------------------------- shared
struct SOp { std::string op; int a; int delay; };
static std::atomic<int> opid;
template <class T> static result::null sh_await(result::Shared<T> s, bool resolve) {
  int k = ++opid;
  EV("\"e\":\"call\",\"k\":%d,\"op\":\"%s\",\"a\":0", k, resolve ? "resolve" : "await");
  std::string r;
  if (resolve) {
    auto q = co_await s.resolve();
    r = stname(q.status());
  } else {
    try {
      if constexpr (std::is_void_v<T>) { co_await s; r = "val0"; }
      else { auto &v = co_await s; r = val::show(v); }
    }
    catch (const Boom &b) { r = "exc" + std::to_string(b.v); }
    catch (const std::exception &) { r = "broken"; }
  }
  EV("\"e\":\"ret\",\"k\":%d,\"r\":\"%s\",\"d\":0", k, r.c_str());
}
template <class T> static void sh_op(result::Shared<T> &s, const SOp &o) {
  if (o.delay) std::this_thread::sleep_for(ms(o.delay));
  if (o.op == "await" || o.op == "resolve") { if (s) sh_await<T>(s, o.op == "resolve"); return; }
  int k = ++opid;
  bool had = static_cast<bool>(s);
  EV("\"e\":\"call\",\"k\":%d,\"op\":\"%s\",\"a\":%d", k, had ? o.op.c_str() : "empty", o.a);
  std::string r;
  int64_t t0 = vs::now_ns();
  if (!had) { try { s.status(); r = "noerror"; } catch (const std::exception &) { r = "empty"; } }
  else if (o.op == "drop") { s = result::Shared<T>(); r = "ok"; }
  else if (o.op == "status") r = stname(s.status());
  else if (o.op == "wait") { s.wait(); r = "ok"; }
  else if (o.op == "wait_for") r = stname(s.wait_for(ms(o.a)));
  else if (o.op == "wait_until") r = stname(s.wait_until(std::chrono::steady_clock::now() + ms(o.a)));
  else if (o.op == "get") r = val::got<T>([&]() -> decltype(auto) { return s.get(); });
  int d = (int)((vs::now_ns() - t0) / 1000000);
  EV("\"e\":\"ret\",\"k\":%d,\"r\":\"%s\",\"d\":%d", k, r.c_str(), r == "idle" ? d : 0);
}
struct SC { Prod p; std::vector<std::vector<SOp>> ops; int when; int ty; };
template <class T> static void shared_body(const SC &c) {
  ResultPromise<T> pr;
  Result<T> res = pr.get_result();
  std::optional<result::Shared<T>> s;
  if (c.when == 0) s.emplace(std::move(res));
  std::thread prod([&] { produce(std::move(pr), c.p, 1); });
  if (c.when == 2) prod.join();
  if (c.when) s.emplace(std::move(res));
  std::vector<std::thread> th;
  for (auto &v : c.ops) th.emplace_back([&v, s = *s]() mutable { for (auto &o : v) sh_op(s, o); });
  s.reset();
  for (auto &t : th) t.join();
  if (c.when != 2) prod.join();
}
static drv::Program shared(uint64_t seed) {
  drv::Rng g(seed);
  auto c = std::make_shared<SC>();
  c->ty = g.below(4);
  c->p = rprod(g, g.range(1, 9));
  c->when = g.below(3);    // 0: share first, 1: share concurrently, 2: share after completion
  int n = g.chance(1, 8) ? g.range(4, 6) : g.range(1, 3);
  static const std::vector<std::string> ops = {"status", "wait", "wait_for", "wait_until", "get", "get", "await", "await", "await", "resolve", "drop", "drop"};
  for (int i = 0; i < n; ++i) {
    std::vector<SOp> v;
    int m = g.range(1, 4);
    for (int j = 0; j < m; ++j) v.push_back({g.pick(ops), g.range(0, 6), g.chance(1, 4) ? g.range(1, 5) : 0});
    c->ops.push_back(v);
  }
  drv::Program p;
  p.scn = "{\"outs\":[" + ojson(c->p, c->ty) + "]}";
  p.opt.early_timeout = g.chance(1, 3) ? 0.02 : 0;
  p.body = [c] {
    opid = 0;
    val::with(c->ty, [&](auto t) { shared_body<typename decltype(t)::type>(*c); });
    EV("\"e\":\"live\",\"n\":%d", val::live.load());
  };
  return p;
}

// ------------------------------------------------------------- when_all/any
template <class T, class E> static result::null when_all_co(std::shared_ptr<E> e, std::vector<Result<T>> rs, bool tuple, bool lazy_run, std::atomic<int> *done) {
  size_t n = rs.size();
  EV("\"e\":\"call\",\"op\":\"all\",\"n\":%d", (int)n);
  std::vector<Result<T>> out;
  if (!tuple) out = co_await result::when_all(e, rs.begin(), rs.end());
  else if (n == 1) { auto t = co_await result::when_all(e, std::move(rs[0])); out.push_back(std::move(std::get<0>(t))); }
  else if (n == 2) { auto t = co_await result::when_all(e, std::move(rs[0]), std::move(rs[1])); out.push_back(std::move(std::get<0>(t))); out.push_back(std::move(std::get<1>(t))); }
  else { auto t = co_await result::when_all(e, std::move(rs[0]), std::move(rs[1]), std::move(rs[2])); out.push_back(std::move(std::get<0>(t))); out.push_back(std::move(std::get<1>(t))); out.push_back(std::move(std::get<2>(t))); }
  EV("\"e\":\"ret\",\"op\":\"all\",\"n\":%d,\"i\":0,\"on\":%d", (int)out.size(), vs::tid());
  for (size_t i = 0; i < out.size(); ++i) {
    std::string st = stname(out[i].status());
    std::string r = val::got<T>([&]() -> decltype(auto) { return out[i].get(); });
    EV("\"e\":\"got\",\"i\":%d,\"st\":\"%s\",\"r\":\"%s\"", (int)i + 1, st.c_str(), r.c_str());
  }
  ++*done;
}
template <class T, class E> static result::null when_any_co(std::shared_ptr<E> e, std::vector<Result<T>> rs, bool tuple, int after, std::atomic<int> *done) {
  size_t n = rs.size();
  EV("\"e\":\"call\",\"op\":\"any\",\"n\":%d", (int)n);
  size_t idx = 0;
  std::vector<Result<T>> out;
  if (!tuple) { auto a = co_await result::when_any(e, rs.begin(), rs.end()); idx = a.index; out = std::move(a.results); }
  else if (n == 1) { auto a = co_await result::when_any(e, std::move(rs[0])); idx = a.index; out.push_back(std::move(std::get<0>(a.results))); }
  else if (n == 2) { auto a = co_await result::when_any(e, std::move(rs[0]), std::move(rs[1])); idx = a.index; out.push_back(std::move(std::get<0>(a.results))); out.push_back(std::move(std::get<1>(a.results))); }
  else { auto a = co_await result::when_any(e, std::move(rs[0]), std::move(rs[1]), std::move(rs[2])); idx = a.index; out.push_back(std::move(std::get<0>(a.results))); out.push_back(std::move(std::get<1>(a.results))); out.push_back(std::move(std::get<2>(a.results))); }
  EV("\"e\":\"ret\",\"op\":\"any\",\"n\":%d,\"i\":%d,\"on\":%d", (int)out.size(), (int)idx + 1, vs::tid());
  if (idx < out.size()) {
    std::string st = stname(out[idx].status());
    std::string r = val::got<T>([&]() -> decltype(auto) { return out[idx].get(); });
    EV("\"e\":\"got\",\"i\":%d,\"st\":\"%s\",\"r\":\"%s\"", (int)idx + 1, st.c_str(), r.c_str());
  }
  // the others: 0 dropped, 1 awaited one by one, 2 left to another when_any
  if (after == 1)
    for (size_t i = 0; i < out.size(); ++i)
      if (out[i]) {
        std::string r;
        try {
          if constexpr (std::is_void_v<T>) { co_await out[i]; r = "val0"; }
          else { T v = co_await out[i]; r = val::show(v); }
        }
        catch (const Boom &b) { r = "exc" + std::to_string(b.v); }
        catch (const std::exception &) { r = "broken"; }
        EV("\"e\":\"got\",\"i\":%d,\"st\":\"any\",\"r\":\"%s\"", (int)i + 1, r.c_str());
      }
  if (after == 2) {
    std::vector<Result<T>> rest;
    std::vector<int> map;
    for (size_t i = 0; i < out.size(); ++i) if (out[i]) { rest.push_back(std::move(out[i])); map.push_back((int)i + 1); }
    while (!rest.empty()) {
      EV("\"e\":\"call\",\"op\":\"any\",\"n\":%d", (int)rest.size());
      auto a = co_await result::when_any(e, rest.begin(), rest.end());
      int id = a.index < map.size() ? map[a.index] : 0;
      EV("\"e\":\"ret\",\"op\":\"any\",\"n\":%d,\"i\":%d,\"on\":%d", (int)a.results.size(), id, vs::tid());
      if (!id) break;
      std::string st = stname(a.results[a.index].status());
      std::string r = val::got<T>([&]() -> decltype(auto) { return a.results[a.index].get(); });
      EV("\"e\":\"got\",\"i\":%d,\"st\":\"%s\",\"r\":\"%s\"", id, st.c_str(), r.c_str());
      size_t ix = a.index;
      rest = std::move(a.results);
      rest.erase(rest.begin() + ix);
      map.erase(map.begin() + ix);
    }
  }
  ++*done;
}
struct WC { std::vector<Prod> p; bool tuple; int exk; int after; int ty; };
template <class T> static void when_body(const WC &c, bool any) {
  std::vector<ResultPromise<T>> prs(c.p.size());
  std::vector<Result<T>> rs;
  for (auto &q : prs) rs.push_back(q.get_result());
  for (size_t i = 0; i < prs.size(); ++i)      // delay -1: completed beforehand
    if (c.p[i].delay < 0) produce(std::move(prs[i]), c.p[i], (int)i + 1);
  auto inl = std::make_shared<ex::Inline>();
  auto wrk = std::make_shared<ex::WorkerThread>();
  std::atomic<int> done{0};
  if (c.exk) wrk->post([] { EV("\"e\":\"wth\",\"on\":%d", vs::tid()); });
  std::vector<std::thread> th;
  std::thread cons([&] {
    if (any) { if (c.exk) when_any_co<T>(wrk, std::move(rs), c.tuple, c.after, &done); else when_any_co<T>(inl, std::move(rs), c.tuple, c.after, &done); }
    else { if (c.exk) when_all_co<T>(wrk, std::move(rs), c.tuple, false, &done); else when_all_co<T>(inl, std::move(rs), c.tuple, false, &done); }
  });
  for (size_t i = 0; i < prs.size(); ++i)
    if (c.p[i].delay >= 0)
      th.emplace_back([&, i] { produce(std::move(prs[i]), c.p[i], (int)i + 1); });
  cons.join();
  for (auto &t : th) t.join();
  for (int i = 0; i < 40 && !done; ++i) std::this_thread::sleep_for(ms(5));
  EV("\"e\":\"over\",\"ok\":%d", done.load());
  wrk->shutdown();
}
static drv::Program when(uint64_t seed, bool any) {
  drv::Rng g(seed);
  auto c = std::make_shared<WC>();
  c->ty = g.below(4);
  c->tuple = g.chance(1, 2);
  int n = !c->tuple && g.chance(1, 6) ? g.range(4, 12) : g.range(any ? 1 : 0, 3);
  for (int i = 0; i < n; ++i) { c->p.push_back(rprod(g, i + 1)); if (g.chance(1, 4)) c->p.back().delay = -1; }
  if (n == 0) c->tuple = false;
  c->exk = g.below(2);
  c->after = g.below(3);
  drv::Program p;
  std::string s;
  for (auto &q : c->p) s += (s.empty() ? "" : ",") + ojson(q, c->ty);
  p.scn = "{\"outs\":[" + s + "],\"ex\":\"" + (c->exk ? "worker" : "inline") + "\"}";
  p.opt.early_timeout = g.chance(1, 3) ? 0.02 : 0;
  p.body = [c, any] {
    val::with(c->ty, [&](auto t) { when_body<typename decltype(t)::type>(*c, any); });
    EV("\"e\":\"live\",\"n\":%d", val::live.load());
  };
  return p;
}

int main(int argc, char **argv) {
  return drv::run(argc, argv, {
    {"shared", shared},
    {"all", [](uint64_t s) { return when(s, false); }},
    {"any", [](uint64_t s) { return when(s, true); }},
  });
}
