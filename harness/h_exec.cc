// All executors: submission from several threads and from tasks, settling,
// shutdown, results of submitted tasks.
#include "driver.h"
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/make.h"
#include "plain/concurrency/result/promise.h"
#include "plain/concurrency/result/awaitable.h"
#include "values.h"
#include <array>
#include <mutex>
#include <optional>
#include <thread>
#include <variant>
using namespace plain::concurrency;
namespace ex = plain::concurrency::executor;
using ms = std::chrono::milliseconds;

struct Boom : std::exception { int k; val::Counted c; explicit Boom(int k) : k(k) {} };
using AnyRes = std::variant<Result<int>, Result<void>, Result<val::Tr>, Result<int &>>;
struct Pad { std::array<char, 80> a{}; val::Counted c; };
struct Sub { int x; std::string mode; std::vector<int> ks; int delay; };   // mode: post submit bpost bsubmit shutdown
struct TaskDef { int x = 0; std::string mode; int sleep = 0; bool thr = false; std::vector<Sub> kids; };
struct Exec { std::string kind; int n; int idle; int loopers; };
struct Prog {
  std::vector<Exec> ex;
  std::vector<TaskDef> tasks;            // 1-based (0 unused)
  std::vector<std::vector<Sub>> subs;    // per submitter thread
  bool late = false;                     // submit after the shutdown
  bool settle = true;                    // wait for all tasks before the shutdown
  int sdthreads = 1;
};

static std::string ids(const std::vector<int> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}

struct World {
  const Prog &p;
  std::vector<std::shared_ptr<ex::Basic>> e;
  std::vector<std::optional<AnyRes>> res;
  std::atomic<int> pending{0};
  explicit World(const Prog &p) : p(p), res(p.tasks.size()) {}

  template <class T> T give(int k) { body(k); return val::mk<T>(k); }
  template <class T> void keep(int k, Result<T> r) {
    vs::NoPreempt np;
    res[k].emplace(std::move(r));
  }
  void body(int k) {
    EV("\"e\":\"run\",\"k\":%d,\"th\":%d", k, vs::tid());
    const auto &t = p.tasks[k];
    for (auto &s : t.kids) submit(s);
    if (t.sleep) std::this_thread::sleep_for(ms(t.sleep));
    EV("\"e\":\"fin\",\"k\":%d,\"th\":%d", k, vs::tid());
    --pending;
    if (t.thr) throw Boom(k);
  }

  template <class E> void do_submit(E &x, const Sub &s) {
    int k0 = s.ks[0];
    if (s.mode == "post") {
      if (k0 % 3 == 0) x.post([this, k0] { body(k0); });
      else if (k0 % 3 == 1) x.post([this, p = Pad()](int k, const val::Tr &t) { if (t.v == k) body(k); }, k0, val::Tr(k0));
      else x.post([this, k0, t = val::Tr(k0)]() mutable { val::Tr u(std::move(t)); if (u.v == k0) body(k0); });
    } else
      val::with(s.ks[0], [&](auto ty) {
        using T = typename decltype(ty)::type;
        if (s.mode == "submit") {
          if (k0 % 3 == 0) keep<T>(k0, x.submit([this, k0, p = Pad()]() -> T { return give<T>(k0); }));
          else keep<T>(k0, x.submit([this, c = val::Counted()](int k) -> T { return give<T>(k); }, k0));
          return;
        }
        auto fn = [this](int k) { return [this, k, t = val::Tr(k)]() -> T { return give<T>(t.v == k ? k : 0); }; };
        std::vector<decltype(fn(0))> v;
        for (int k : s.ks) v.push_back(fn(k));
        std::span<decltype(fn(0))> sp(v);
        if (s.mode == "bpost") x.template bulk_post<decltype(fn(0))>(sp);
        else {
          auto rs = x.template bulk_submit<decltype(fn(0))>(sp);
          for (size_t i = 0; i < rs.size(); ++i) keep<T>(s.ks[i], std::move(rs[i]));
        }
      });
  }

  void shutdown(int x) {
    EV("\"e\":\"sd\",\"x\":%d,\"th\":%d", x, vs::tid());
    e[x]->shutdown();
    EV("\"e\":\"sdr\",\"x\":%d,\"th\":%d,\"req\":%s", x, vs::tid(), e[x]->shutdown_requested() ? "true" : "false");
  }

  void submit(const Sub &s) {
    if (s.delay) std::this_thread::sleep_for(ms(s.delay));
    if (s.mode == "shutdown") return shutdown(s.x);
    std::string l = ids(s.ks);
    pending += (int)s.ks.size();
    EV("\"e\":\"sub\",\"x\":%d,\"th\":%d,\"m\":\"%s\",\"ks\":%s", s.x, vs::tid(), s.mode.c_str(), l.c_str());
    try {
      do_submit(*e[s.x], s);
      EV("\"e\":\"acc\",\"th\":%d,\"ks\":%s", vs::tid(), l.c_str());
    } catch (const std::exception &) {
      EV("\"e\":\"rej\",\"th\":%d,\"ks\":%s", vs::tid(), l.c_str());
      pending -= (int)s.ks.size();
    }
  }

  void go() {
    EV("\"e\":\"ht\",\"th\":%d", vs::tid());
    std::vector<std::thread> loops;
    std::atomic<bool> stop{false};
    for (size_t i = 0; i < p.ex.size(); ++i) {
      const auto &d = p.ex[i];
      if (d.kind == "inline") e.push_back(std::make_shared<ex::Inline>());
      else if (d.kind == "thread") e.push_back(std::make_shared<ex::Thread>());
      else if (d.kind == "worker") e.push_back(std::make_shared<ex::WorkerThread>());
      else if (d.kind == "pool") e.push_back(std::make_shared<ex::ThreadPool>("pool", d.n, ms(d.idle)));
      else e.push_back(std::make_shared<ex::Manual>());
    }
    for (size_t i = 0; i < p.ex.size(); ++i)
      if (p.ex[i].kind == "manual")
        for (int l = 0; l < p.ex[i].loopers; ++l)
          loops.emplace_back([this, i, l, &stop] {
            EV("\"e\":\"loop\",\"th\":%d,\"x\":%d", vs::tid(), (int)i);
            auto *m = static_cast<ex::Manual *>(e[i].get());
            try {
              for (int n = p.ex[i].n + l; !stop; ++n)
                switch (n % 5) {
                  case 0: m->wait_for_task_for(ms(20)); m->loop_once(); break;
                  case 1: m->loop_once_for(ms(3)); break;
                  case 2: m->loop_for(2, ms(4)); break;
                  case 3: m->wait_for_tasks_for(2, ms(2)); m->loop(3); break;
                  default: m->loop_once_until(std::chrono::system_clock::now() + ms(2));
                }
            } catch (const std::exception &) {}
          });
    std::vector<std::thread> th;
    for (size_t i = 0; i < p.subs.size(); ++i)
      th.emplace_back([this, i] {
        EV("\"e\":\"ht\",\"th\":%d", vs::tid());
        for (auto &s : p.subs[i]) submit(s);
      });
    for (auto &t : th) t.join();
    if (p.settle) {
      vs::set_early_timeout(0);
      for (int i = 0; i < 40 && pending > 0; ++i) std::this_thread::sleep_for(ms(50));
      EV("\"e\":\"settled\"");
    }
    std::vector<std::thread> sd;
    for (int i = 1; i < p.sdthreads; ++i)
      sd.emplace_back([this] {
        EV("\"e\":\"ht\",\"th\":%d", vs::tid());
        for (size_t i = 0; i < e.size(); ++i) shutdown((int)i);
      });
    for (size_t i = 0; i < e.size(); ++i) shutdown((int)i);
    for (auto &t : sd) t.join();
    if (p.late)
      for (size_t i = 0; i < e.size(); ++i) {
        int k = (int)(p.tasks.size() - e.size() + i);
        submit({(int)i, p.tasks[k].mode, {k}, 0});
      }
    stop = true;
    for (auto &t : loops) t.join();
    for (size_t k = 1; k < res.size(); ++k) {
      if (!res[k]) continue;
      std::string r = std::visit([&](auto &q) -> std::string {
        if (q.wait_for(ms(100)) == ResultStatus::Idle) return "idle";
        auto wrap = [&]<class T>(Result<T> &x) -> std::string {
          try {
            if constexpr (std::is_void_v<T>) { x.get(); return "val"; }
            else { T v = x.get(); return val::show(v) == val::sval((int)k) ? "val" : "wrong"; }
          }
          catch (const Boom &b) { return b.k == (int)k ? "exc" : "wrong"; }
          catch (const std::exception &) { return "broken"; }
        };
        return wrap(q);
      }, *res[k]);
      EV("\"e\":\"got\",\"k\":%d,\"r\":\"%s\"", (int)k, r.c_str());
    }
    // results still pending keep their state alive; leave them to the process
    e.clear();
  }
};

static drv::Program build(uint64_t seed, const std::string &only, bool two, bool with_sd, bool big = false) {
  drv::Rng g(seed);
  auto P = std::make_shared<Prog>();
  static const std::vector<std::string> kinds = {"inline", "manual", "thread", "worker", "pool", "pool"};
  int ne = two || g.chance(1, 4) ? 2 : 1;
  for (int i = 0; i < ne; ++i) {
    std::string k = only.empty() ? g.pick(kinds) : only;
    if (two && i == 1 && g.chance(1, 3)) k = g.pick(kinds);
    P->ex.push_back({k, big ? g.range(3, 9) : g.range(1, 3), g.chance(1, 2) ? 100000000 : g.pick(std::vector<int>{1, 2, 3, 5, 50}), g.chance(2, 3) ? 1 : 2});
  }
  P->tasks.resize(1);
  auto new_task = [&](int x, const std::string &m) {
    TaskDef t;
    t.x = x; t.mode = m;
    t.sleep = g.chance(1, 4) ? g.range(1, 3) : 0;
    t.thr = g.chance(1, 8);
    P->tasks.push_back(t);
    return (int)P->tasks.size() - 1;
  };
  int maxtasks = big ? g.range(8, 36) : g.range(3, 7);
  auto new_sub = [&](bool kid) {
    Sub s;
    s.x = g.below(ne);
    static const std::vector<std::string> modes = {"post", "post", "submit", "submit", "bpost", "bsubmit"};
    s.mode = g.pick(modes);
    int n = s.mode[0] == 'b' ? g.range(1, big ? 24 : 3) : 1;
    s.delay = !kid && g.chance(1, 3) ? g.range(1, 6) : 0;
    for (int i = 0; i < n; ++i) s.ks.push_back(new_task(s.x, s.mode));
    return s;
  };
  int ns = g.range(1, 3);
  P->subs.resize(ns);
  int sds = with_sd && g.chance(1, 2) ? g.range(1, 2) : 0;
  while ((int)P->tasks.size() < maxtasks) {
    if (P->tasks.size() > 1 && g.chance(1, 3)) {
      int parent = g.range(1, (int)P->tasks.size() - 1);
      Sub s = new_sub(true);
      P->tasks[parent].kids.push_back(s);
    } else {
      Sub s = new_sub(false);
      P->subs[g.below(ns)].push_back(s);
    }
  }
  for (int i = 0; i < sds; ++i) {
    auto &v = P->subs[g.below(ns)];
    v.insert(v.begin() + g.below((int)v.size() + 1), Sub{g.below(ne), "shutdown", {}, g.chance(1, 3) ? g.range(1, 5) : 0});
  }
  // a task of the first executor shuts the second one down
  if (with_sd && ne == 2 && g.chance(1, 3)) {
    std::vector<int> c;
    for (size_t k = 1; k < P->tasks.size(); ++k) if (P->tasks[k].x == 0) c.push_back((int)k);
    bool in = P->ex[0].kind != "inline" && P->ex[1].kind != "inline";
    if (!c.empty() && in) P->tasks[g.pick(c)].kids.push_back(Sub{1, "shutdown", {}, 0});
  }
  P->settle = !with_sd || g.chance(1, 2);
  P->sdthreads = with_sd && g.chance(1, 3) ? 2 : 1;
  P->late = with_sd;
  if (P->late)
    for (int i = 0; i < ne; ++i) { int k = new_task(i, g.chance(1, 2) ? "post" : "submit"); P->tasks[k].sleep = 0; }
  drv::Program p;
  std::string s = "{\"ex\":[";
  for (size_t i = 0; i < P->ex.size(); ++i)
    s += std::string(i ? "," : "") + "{\"kind\":\"" + P->ex[i].kind + "\",\"n\":" + std::to_string(P->ex[i].n) +
         ",\"lp\":" + std::to_string(P->ex[i].loopers) + "}";
  s += "],\"tasks\":[";
  for (size_t i = 1; i < P->tasks.size(); ++i)
    s += std::string(i > 1 ? "," : "") + "{\"x\":" + std::to_string(P->tasks[i].x) + ",\"m\":\"" + P->tasks[i].mode +
         "\",\"thr\":" + (P->tasks[i].thr ? "true" : "false") + "}";
  s += "]}";
  p.scn = s;
  p.opt.early_timeout = g.chance(1, 2) ? 0.02 : 0;
  p.opt.spurious = g.chance(1, 5) ? 0.1 : 0;
  p.body = [P] {
    auto *w = new World(*P);
    w->go();
    w->res.clear();
    delete w;
    EV("\"e\":\"live\",\"n\":%d", val::live.load());
  };
  return p;
}

int main(int argc, char **argv) {
  return drv::run(argc, argv, {
    {"any", [](uint64_t s) { return build(s, "", false, false); }},
    {"pool", [](uint64_t s) { return build(s, "pool", false, false); }},
    {"pools", [](uint64_t s) { return build(s, "pool", true, false); }},
    {"worker", [](uint64_t s) { return build(s, "worker", false, false); }},
    {"manual", [](uint64_t s) { return build(s, "manual", false, false); }},
    {"thread", [](uint64_t s) { return build(s, "thread", false, false); }},
    {"big", [](uint64_t s) { return build(s, s % 3 ? "pool" : s % 2 ? "worker" : "", false, false, true); }},
    {"sdbig", [](uint64_t s) { return build(s, s % 3 ? "pool" : s % 2 ? "worker" : "", false, true, true); }},
    {"sdany", [](uint64_t s) { return build(s, "", false, true); }},
    {"sdpool", [](uint64_t s) { return build(s, "pool", false, true); }},
    {"sdworker", [](uint64_t s) { return build(s, "worker", false, true); }},
    {"sdmanual", [](uint64_t s) { return build(s, "manual", false, true); }},
    {"sdthread", [](uint64_t s) { return build(s, "thread", false, true); }},
  });
}
