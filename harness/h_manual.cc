// The manual executor: every operation from several threads.
#include "driver.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/promise.h"
#include <thread>
namespace ex = plain::concurrency::executor;
using ms = std::chrono::milliseconds;
struct Op { std::string op; int n; int w; std::vector<int> ks; int delay; };

static void exec(ex::Manual &m, const Op &o) {
  if (o.delay) std::this_thread::sleep_for(ms(o.delay));
  int t = vs::tid();
  std::string ks = "[";
  for (size_t i = 0; i < o.ks.size(); ++i) ks += (i ? "," : "") + std::to_string(o.ks[i]);
  ks += "]";
  EV("\"e\":\"call\",\"t\":%d,\"op\":\"%s\",\"n\":%d,\"w\":%d,\"ks\":%s", t, o.op.c_str(), o.n, o.w, ks.c_str());
  int64_t t0 = vs::now_ns();
  int r = -2;
  auto until = [&] { return std::chrono::steady_clock::now() + ms(o.w); };
  auto task = [](int k) { return [k] { EV("\"e\":\"run\",\"t\":%d,\"k\":%d", vs::tid(), k); }; };
  try {
    if (o.op == "post") { m.post(task(o.ks[0])); r = 0; }
    else if (o.op == "bpost") {
      std::vector<decltype(task(0))> v;
      for (int k : o.ks) v.push_back(task(k));
      m.bulk_post<decltype(task(0))>(std::span<decltype(task(0))>(v)); r = 0;
    }
    else if (o.op == "size") r = (int)m.size();
    else if (o.op == "empty") r = m.empty();
    else if (o.op == "clear") r = (int)m.clear();
    else if (o.op == "requested") r = m.shutdown_requested();
    else if (o.op == "loop_once") r = m.loop_once();
    else if (o.op == "loop_once_for") r = m.loop_once_for(ms(o.w));
    else if (o.op == "loop_once_until") r = m.loop_once_until(until());
    else if (o.op == "loop") r = (int)m.loop(o.n);
    else if (o.op == "loop_for") r = (int)m.loop_for(o.n, ms(o.w));
    else if (o.op == "loop_until") r = (int)m.loop_until(o.n, until());
    else if (o.op == "wait_for_task") { m.wait_for_task(); r = 0; }
    else if (o.op == "wait_for_task_for") r = m.wait_for_task_for(ms(o.w));
    else if (o.op == "wait_for_task_until") r = m.wait_for_task_until(until());
    else if (o.op == "wait_for_tasks") { m.wait_for_tasks(o.n); r = 0; }
    else if (o.op == "wait_for_tasks_for") r = (int)m.wait_for_tasks_for(o.n, ms(o.w));
    else if (o.op == "wait_for_tasks_until") r = (int)m.wait_for_tasks_until(o.n, until());
    else if (o.op == "shutdown") { m.shutdown(); r = 0; }
  } catch (const std::exception &) { r = -1; }
  int d = (int)((vs::now_ns() - t0) / 1000000);
  EV("\"e\":\"ret\",\"t\":%d,\"r\":%d,\"d\":%d", t, r, d > o.w ? o.w : d);
}

static drv::Program make(uint64_t seed) {
  drv::Rng g(seed);
  auto P = std::make_shared<std::vector<std::vector<Op>>>();
  int nt = g.range(2, 4), k = 0;
  bool waits = g.chance(1, 4);   // mostly waits of different sizes and single posts
  P->resize(nt);
  static const std::vector<std::string> prod = {"post", "post", "post", "bpost", "bpost", "size", "clear", "requested", "empty"};
  static const std::vector<std::string> cons = {"loop_once", "loop_once_for", "loop_once_until", "loop", "loop_for", "loop_until",
    "wait_for_task", "wait_for_task_for", "wait_for_task_until", "wait_for_tasks", "wait_for_tasks_for", "wait_for_tasks_until", "size", "post"};
  for (int i = 0; i < nt; ++i) {
    int n = g.range(1, nt == 2 ? 5 : nt == 3 ? 3 : 2);
    for (int j = 0; j < n; ++j) {
      Op o;
      bool c = i == 0 ? g.chance(1, 5) : g.chance(4, 5);
      o.op = c ? g.pick(cons) : g.pick(prod);
      if (waits) o.op = i == 0 ? g.pick(std::vector<std::string>{"post", "post", "bpost", "loop_once"}) : g.pick(std::vector<std::string>{"wait_for_task", "wait_for_tasks"});
      o.n = g.chance(1, 12) ? 0 : g.range(1, 3);
      o.w = g.chance(1, 4) ? 0 : g.range(1, 6);
      int nk = o.op == "post" ? 1 : o.op == "bpost" ? g.range(1, 3) : 0;
      for (int q = 0; q < nk; ++q) o.ks.push_back(++k);
      o.delay = g.chance(1, 4) ? g.range(1, 5) : 0;
      (*P)[i].push_back(o);
    }
  }
  if (g.chance(1, 3)) {
    auto &v = (*P)[g.below(nt)];
    v.insert(v.begin() + g.below((int)v.size() + 1), Op{"shutdown", 0, 0, {}, g.chance(1, 2) ? g.range(1, 6) : 0});
  }
  int grace = g.pick(std::vector<int>{0, 3, 200, 200});
  drv::Program p;
  p.scn = "{\"nt\":" + std::to_string(nt) + "}";
  p.opt.early_timeout = g.chance(1, 3) ? 0.02 : 0;
  p.opt.spurious = g.chance(1, 4) ? 0.1 : 0;
  p.body = [P, grace] {
    ex::Manual m;
    std::vector<std::thread> th;
    for (auto &v : *P) th.emplace_back([&m, &v] { for (auto &o : v) exec(m, o); });
    if (grace == 200) vs::set_early_timeout(0);
    if (grace) std::this_thread::sleep_for(ms(grace));
    if (grace == 200) EV("\"e\":\"quiet\"");
    exec(m, Op{"shutdown", 0, 0, {}, 0});
    for (auto &t : th) t.join();
    exec(m, Op{"post", 0, 0, {99}, 0});
    exec(m, Op{"size", 0, 0, {}, 0});
    exec(m, Op{"loop_once", 0, 0, {}, 0});
    exec(m, Op{"clear", 0, 0, {}, 0});
    exec(m, Op{"wait_for_task", 0, 0, {}, 0});
  };
  return p;
}
int main(int argc, char **argv) { return drv::run(argc, argv, {{"manual", make}}); }
