// The queue of tasks: threads put in, run one or all, look at the results; destruction.
#include "driver.h"
#include <future>
#include <memory>
#include <queue>
#include <thread>
#include "plain/basic/task_queue.h"
using plain::TaskQueue;

struct Op { std::string op; int k = 0; };
struct Task { std::string out; int kid = 0; };
struct Prog { std::vector<Task> t; std::vector<std::vector<Op>> th; std::vector<Op> after; };

static thread_local int me = 0;
struct World {
  const Prog &p;
  std::unique_ptr<TaskQueue> q;
  std::vector<std::future<std::string>> f;
  explicit World(const Prog &p) : p(p), f(p.t.size()) {}
  std::string body(int k, const std::string &arg) {
    EV("\"e\":\"run\",\"t\":%d,\"k\":%d", me, k);
    if (p.t[k].kid) put(p.t[k].kid);
    EV("\"e\":\"ran\",\"t\":%d,\"k\":%d", me, k);
    if (arg[0] == 'x') throw std::runtime_error(arg);
    return arg;
  }
  TaskQueue *tq = nullptr;
  void put(int k) {
    EV("\"e\":\"enq\",\"t\":%d,\"k\":%d", me, k);
    bool ok = true;
    try {
      auto r = tq->enqueue([this](int a, const std::string &s) { return body(a, s); }, k, p.t[k].out);
      vs::NoPreempt np;
      f[k] = std::move(r);
    } catch (const std::runtime_error &) { ok = false; }
    EV("\"e\":\"enqd\",\"t\":%d,\"k\":%d,\"ok\":%s", me, k, ok ? "true" : "false");
  }
  void look(int k) {
    vs::NoPreempt np;
    if (!f[k].valid()) return;
    std::string o;
    if (f[k].wait_for(std::chrono::seconds(0)) == std::future_status::ready) {
      try { o = f[k].get(); } catch (const std::runtime_error &e) { o = e.what(); } catch (...) { o = "?"; }
    }
    EV("\"e\":\"fut\",\"k\":%d,\"o\":\"%s\"", k, o.c_str());
  }
  void op(const Op &o) {
    if (o.op == "put") return put(o.k);
    if (o.op == "look") return look(o.k);
    EV("\"e\":\"work\",\"t\":%d,\"op\":\"%s\"", me, o.op.c_str());
    if (o.op == "one") q->work_one();
    else if (o.op == "all") q->work_all();
    else q.reset();
    EV("\"e\":\"workd\",\"t\":%d", me);
  }
  void go() {
    q = std::make_unique<TaskQueue>();
    tq = q.get();
    std::vector<std::thread> th;
    for (size_t i = 0; i < p.th.size(); ++i) th.emplace_back([this, i] { me = (int)i + 1; for (auto &o : p.th[i]) op(o); });
    for (auto &t : th) t.join();
    for (auto &o : p.after) op(o);
    op({"end"});
    for (size_t k = 1; k < f.size(); ++k) look((int)k);
  }
};

static drv::Program build(uint64_t seed) {
  drv::Rng g(seed);
  auto P = std::make_shared<Prog>();
  P->t.resize(1);
  auto mk = [&](auto &&self, int depth) -> int {
    int k = (int)P->t.size();
    P->t.push_back({});
    P->t[k].out = (g.chance(1, 4) ? "x" : "v") + std::to_string(k);
    if (depth && g.chance(1, 4)) { int c = self(self, depth - 1); P->t[k].kid = c; }
    return k;
  };
  auto gen = [&](std::vector<Op> &v, int n) {
    for (int i = 0; i < n; ++i) {
      int x = g.below(10);
      if (x < 5) v.push_back({"put", mk(mk, 2)});
      else if (x < 8) v.push_back({"one"});
      else if (x < 9) v.push_back({"all"});
      else if (P->t.size() > 1) v.push_back({"look", g.range(1, (int)P->t.size() - 1)});
    }
  };
  P->th.resize(g.range(1, 3));
  for (auto &v : P->th) gen(v, g.range(2, 6));
  gen(P->after, g.range(0, 3));
  drv::Program r;
  std::string o;
  for (size_t k = 1; k < P->t.size(); ++k) o += (k > 1 ? ",\"" : "\"") + P->t[k].out + "\"";
  r.scn = "{\"out\":[" + o + "]}";
  r.body = [P] { World w(*P); w.go(); };
  return r;
}

int main(int argc, char **argv) { return drv::run(argc, argv, {{"taskq", build}}); }
