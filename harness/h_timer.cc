// Timer queue: one-shot and periodic timers, delays, cancel, frequency changes,
// shutdown of the queue and of the executors.
#include "driver.h"
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/make.h"
#include "plain/concurrency/result/promise.h"
#include "plain/concurrency/result/awaitable.h"
#include "plain/concurrency/result/lazy.h"
#include "plain/engine/timer_queue.h"
#include <optional>
#include <thread>
using namespace plain;
using namespace plain::concurrency;
namespace ex = plain::concurrency::executor;
using ms = std::chrono::milliseconds;

struct Def { int x = 0; int due = 0; int freq = 0; std::string kind; int kid = 0; };   // kind: one per delay
struct Op { std::string op; int t = 0; int a = 0; };
struct Prog { std::vector<std::string> ex; std::vector<Def> d; std::vector<std::vector<Op>> cl; int idle; bool settle; int calm = 60; };

struct World {
  const Prog &p;
  std::shared_ptr<TimerQueue> q;
  std::vector<std::shared_ptr<ex::Basic>> e;
  std::vector<std::unique_ptr<Timer>> tm;
  explicit World(const Prog &p) : p(p), tm(p.d.size()) {}
  void body(int t, int arg) {
    EV("\"e\":\"fire\",\"t\":%d,\"th\":%d,\"at\":%d,\"arg\":%d", t, vs::tid(), drv::us(), arg);
    if (p.d[t].kid) make(p.d[t].kid);
    EV("\"e\":\"fired\",\"t\":%d,\"th\":%d", t, vs::tid());
  }
  void make(int t) {
    const Def &d = p.d[t];
    EV("\"e\":\"mk\",\"t\":%d,\"at\":%d", t, drv::us());
    std::string r = "ok";
    if (d.kind == "delay") { delay(t); return; }
    try {
      Timer x = d.kind == "one" ? q->make_one_shot_timer(ms(d.due), e[d.x], [this, t] { body(t, t); })
                                : q->make_timer(ms(d.due), ms(d.freq), e[d.x], [this, t] { body(t, t); });
      vs::NoPreempt np;
      tm[t] = std::make_unique<Timer>(std::move(x));
      if (x) r = "moved";
    } catch (const std::exception &) { r = "err"; }
    EV("\"e\":\"mkd\",\"t\":%d,\"r\":\"%s\"", t, r.c_str());
  }
  result::null delay(int t) {
    const Def &d = p.d[t];
    bool ok = true;
    try {
      auto l = q->make_delay_object(ms(d.due), e[d.x]);
      co_await l;
    } catch (const std::exception &) { ok = false; }
    EV("\"e\":\"woke\",\"t\":%d,\"ok\":%s,\"th\":%d,\"at\":%d", t, ok ? "true" : "false", vs::tid(), drv::us());
    if (d.kid) make(d.kid);
  }
  void op(const Op &o) {
    if (o.op == "sleep") { std::this_thread::sleep_for(ms(o.a)); return; }
    if (o.op == "mk") { make(o.t); return; }
    if (o.op == "qsd") {
      EV("\"e\":\"qsd\",\"at\":%d", drv::us());
      q->shutdown();
      EV("\"e\":\"qsdr\",\"req\":%s,\"at\":%d", q->shutdown_requested() ? "true" : "false", drv::us());
      return;
    }
    if (o.op == "xsd") {
      EV("\"e\":\"xsd\",\"x\":%d", o.a);
      e[o.a]->shutdown();
      EV("\"e\":\"xsdr\",\"x\":%d", o.a);
      return;
    }
    auto &t = tm[o.t];
    if (!t) return;
    if (o.op == "cancel" || o.op == "drop" || o.op == "assign") {
      EV("\"e\":\"cancel\",\"t\":%d", o.t);
      if (o.op == "cancel") t->cancel();
      else if (o.op == "drop") { Timer x(std::move(*t)); }
      else *t = Timer();
      EV("\"e\":\"cancelled\",\"t\":%d,\"full\":%s", o.t, *t ? "true" : "false");
    } else if (o.op == "setf") {
      EV("\"e\":\"setf\",\"t\":%d,\"f\":%d", o.t, o.a);
      std::string r = "ok";
      try { t->set_frequency(ms(o.a)); } catch (const std::exception &) { r = "empty"; }
      EV("\"e\":\"setfd\",\"t\":%d,\"r\":\"%s\"", o.t, r.c_str());
    } else if (o.op == "get") {
      int due = -1, f = -1;
      bool x = false;
      try { due = (int)t->get_due_time().count(); f = (int)t->get_frequency().count(); x = t->get_executor() == e[p.d[o.t].x]; }
      catch (const std::exception &) {}
      EV("\"e\":\"get\",\"t\":%d,\"due\":%d,\"f\":%d,\"x\":%s", o.t, due, f, x ? "true" : "false");
    }
  }
  void go() {
    q = std::make_shared<TimerQueue>(ms(p.idle));
    EV("\"e\":\"ht\",\"th\":%d", vs::tid());
    std::vector<std::thread> loops;
    std::atomic<bool> stop{false};
    for (size_t i = 0; i < p.ex.size(); ++i) {
      auto cb = [i](std::string_view) { EV("\"e\":\"thr\",\"x\":%d,\"th\":%d", (int)i, vs::tid()); };
      const auto &k = p.ex[i];
      if (k == "inline") e.push_back(std::make_shared<ex::Inline>());
      else if (k == "worker") e.push_back(std::make_shared<ex::WorkerThread>(cb));
      else if (k == "pool") e.push_back(std::make_shared<ex::ThreadPool>("p", 2, ms(p.idle > 20 ? p.idle : 3), cb));
      else e.push_back(std::make_shared<ex::Manual>());
    }
    for (size_t i = 0; i < p.ex.size(); ++i)
      if (p.ex[i] == "manual")
        loops.emplace_back([this, i, &stop] {
          EV("\"e\":\"thr\",\"x\":%d,\"th\":%d", (int)i, vs::tid());
          auto *m = static_cast<ex::Manual *>(e[i].get());
          try { while (!stop) m->loop_once_for(ms(20)); } catch (const std::exception &) {}
        });
    std::vector<std::thread> th;
    for (size_t i = 0; i < p.cl.size(); ++i)
      th.emplace_back([this, i] {
        EV("\"e\":\"ht\",\"th\":%d", vs::tid());
        for (auto &o : p.cl[i]) op(o);
      });
    for (auto &t : th) t.join();
    if (p.settle) {
      vs::set_early_timeout(0);
      EV("\"e\":\"calm\",\"at\":%d", drv::us());
      std::this_thread::sleep_for(ms(p.calm));
      EV("\"e\":\"settled\",\"at\":%d", drv::us());
    }
    for (auto &t : tm) if (t && *t) { int k = (int)(&t - &tm[0]); EV("\"e\":\"cancel\",\"t\":%d", k); t->cancel(); EV("\"e\":\"cancelled\",\"t\":%d,\"full\":false", k); }
    op({"qsd"});
    for (size_t i = 0; i < e.size(); ++i) op({"xsd", 0, (int)i});
    stop = true;
    for (auto &t : loops) t.join();
    tm.clear();
    q.reset();
    EV("\"e\":\"over\"");
  }
};

static std::string scn(const Prog &q) {
  auto *P = &q;
  std::string s = "{\"ex\":[", sep;
  for (auto &k : P->ex) { s += sep + "\"" + k + "\""; sep = ","; }
  s += "],\"d\":[";
  sep = "";
  for (size_t i = 1; i < P->d.size(); ++i) {
    auto &d = P->d[i];
    s += sep + "{\"x\":" + std::to_string(d.x) + ",\"kind\":\"" + d.kind + "\",\"due\":" + std::to_string(d.due) + ",\"f\":" + std::to_string(d.freq) + "}";
    sep = ",";
  }
  return s + "]}";
}

static drv::Program build(uint64_t seed, bool sd, bool many = false) {
  drv::Rng g(seed);
  auto P = std::make_shared<Prog>();
  static const std::vector<std::string> kinds = {"inline", "inline", "manual", "worker", "pool"};
  int ne = g.range(1, 2);
  for (int i = 0; i < ne; ++i) P->ex.push_back(g.pick(kinds));
  P->idle = g.chance(1, 3) ? 100000000 : g.pick(std::vector<int>{1, 2, 3, 20});
  P->d.resize(1);
  int nc = g.range(1, 2);
  P->cl.resize(nc);
  auto newt = [&](bool kid) {
    Def d;
    d.x = g.below(ne);
    d.kind = g.chance(1, 4) ? "delay" : kid || g.chance(1, 2) ? "one" : "per";
    d.due = many ? g.pick(std::vector<int>{2, 5, 5, 20, 40}) : g.pick(std::vector<int>{0, 0, 1, 2, 3, 5, 9});
    d.freq = d.kind == "per" ? many ? g.pick(std::vector<int>{15, 30}) : g.pick(std::vector<int>{1, 2, 4, 7}) : 0;
    P->d.push_back(d);
    return (int)P->d.size() - 1;
  };
  for (int c = 0; c < nc; ++c) {
    std::vector<int> mine;
    int n = many ? g.range(8, 20) : g.range(2, 7);
    for (int i = 0; i < n; ++i) {
      int k = g.below(12);
      if (i == 0 || k < 4) {
        if (P->d.size() > (many ? 18 : 6)) continue;
        int t = newt(false);
        if (P->d[t].kind != "per" && g.chance(1, 5) ) { int u = newt(true); P->d[t].kid = u; }
        P->cl[c].push_back({"mk", t});
        if (P->d[t].kind != "delay") mine.push_back(t);
      } else if (k < 7) P->cl[c].push_back({"sleep", 0, g.range(1, 6)});
      else if (k < 9 && !mine.empty()) P->cl[c].push_back({g.pick(std::vector<std::string>{"cancel", "cancel", "drop", "assign"}), g.pick(mine)});
      else if (k == 9 && !mine.empty()) P->cl[c].push_back({"setf", g.pick(mine), g.range(1, 8)});
      else if (!mine.empty()) P->cl[c].push_back({"get", g.pick(mine)});
    }
  }
  if (sd)
    for (int i = 0; i < 2; ++i) {
      auto &v = P->cl[g.below(nc)];
      v.insert(v.begin() + g.below((int)v.size() + 1), g.chance(1, 2) ? Op{"qsd"} : Op{"xsd", 0, g.below(ne)});
    }
  P->settle = g.chance(3, 4);
  if (many) P->calm = 140;
  drv::Program p;
  p.scn = scn(*P);
  p.opt.early_timeout = g.chance(1, 2) ? 0.02 : 0;
  p.opt.spurious = g.chance(1, 4) ? 0.1 : 0;
  p.body = [P] { auto *w = new World(*P); w->go(); delete w; };
  return p;
}

// the queue's thread comes to the end of its idle time again and again while timers are made
static drv::Program build_idle(uint64_t seed) {
  drv::Rng g(seed);
  auto P = std::make_shared<Prog>();
  P->ex.push_back(g.pick(std::vector<std::string>{"inline", "inline", "inline", "worker", "pool"}));
  P->idle = g.range(1, 3);
  P->d.resize(1);
  int nc = g.range(1, 2);
  P->cl.resize(nc);
  for (int c = 0; c < nc; ++c) {
    int n = g.range(2, 4);
    for (int i = 0; i < n; ++i) {
      Def d;
      d.kind = g.chance(1, 5) ? "delay" : "one";
      d.due = g.below(2);
      P->d.push_back(d);
      P->cl[c].push_back({"mk", (int)P->d.size() - 1});
      if (g.chance(3, 4)) P->cl[c].push_back({"sleep", 0, d.due + P->idle});
    }
  }
  P->settle = true;
  P->calm = 20;
  drv::Program p;
  p.scn = scn(*P);
  p.opt.early_timeout = g.chance(1, 2) ? 0.1 : 0;
  p.body = [P] { auto *w = new World(*P); w->go(); delete w; };
  return p;
}

int main(int argc, char **argv) {
  return drv::run(argc, argv, {{"timer", [](uint64_t s) { return build(s, false); }}, {"timersd", [](uint64_t s) { return build(s, true); }}, {"idle", build_idle}, {"many", [](uint64_t s) { return build(s, s % 3 == 0, true); }}});
}
