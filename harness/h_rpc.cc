// Remote calls over the loopback: calls, asynchronous calls and notices from
// several threads, functions of every shape, errors, time-outs, endings.
#include "driver.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/engine/kernel.h"
#include "plain/net/address.h"
#include "plain/net/connection/basic.h"
#include "plain/net/connector.h"
#include "plain/net/listener.h"
#include "plain/net/packet/basic.h"
#include <fcntl.h>
#include <future>
#include <thread>
#include <unistd.h>
using namespace plain;
using namespace plain::concurrency;
namespace ex = plain::concurrency::executor;
using ms = std::chrono::milliseconds;
using U = net::rpc::Unpacker;

struct Op { std::string op, k, f; int c = 0, t = 0, n = 0; };
struct Prog {
  std::string sx, cx;
  bool sel = false, end = false;
  std::vector<int> tmo{0};             // per connection: time-out of calls in ms, 0 none
  std::vector<std::vector<Op>> th;     // the second phase
  std::vector<Op> call{1};             // token -> call
  std::string stop;
};
static std::string str_of(int t, int n) { std::string s(n, 'x'); for (int i = 0; i < n; ++i) s[i] = char('a' + (t * 5 + i * 3 + i / 26) % 26); return s; }
static std::vector<int> list_of(int t, int n) { std::vector<int> v; for (int i = 0; i < n; ++i) v.push_back(t * 1000003 + i * 77 - 5000); return v; }

struct World {
  const Prog &p;
  std::shared_ptr<net::Listener> s;
  std::shared_ptr<net::Connector> c;
  std::vector<std::shared_ptr<net::connection::Basic>> h, sh;
  int runs = 0;
  struct Fut { int t; std::future<U> f; };
  std::vector<Fut> nested;
  explicit World(const Prog &p) : p(p), h(p.tmo.size()), sh(p.tmo.size()) {}
  static const char *b(bool x) { return x ? "true" : "false"; }
  const char *sd(bool srv) { return srv ? "S" : "C"; }

  // ---- the bound functions: each reports its call and number
  int run(int t, const char *f, bool good) {
    int n;
    { vs::NoPreempt np; n = ++runs; }
    bool known = t >= 1 && t < (int)p.call.size() && p.call[t].f == f;
    EV("\"e\":\"run\",\"t\":%d,\"n\":%d,\"good\":%s", t, n, b(good && known));
    vs::yield_point();
    if (known && p.call[t].n < 0) std::this_thread::sleep_for(ms(-p.call[t].n));
    return n;
  }
  void rund(int t) { EV("\"e\":\"rund\",\"t\":%d", t); }
  int anon(const char *f) { for (size_t t = 1; t < p.call.size(); ++t) if (p.call[t].f == f) return (int)t; return 0; }
  void bind() {
    s->bind("add", [this](int t, int x) { int n = run(t, "add", x == t * 3 + 1); rund(t); return n; });
    s->bind("echo", [this](int t, std::string x) {
      int n = run(t, "echo", x == str_of(t, p.call[t].n));
      auto r = std::to_string(n) + ":" + x;
      rund(t);
      return r;
    });
    s->bind("list", [this](int t, std::vector<int> x) {
      int n = run(t, "list", x == list_of(t, p.call[t].n));
      x.push_back(n);
      rund(t);
      return x;
    });
    s->bind("note", [this](int t) { run(t, "note", true); rund(t); });
    s->bind("note3", [this](int t, std::string x, int y) { run(t, "note3", x == str_of(t, 7) && y == -t); rund(t); });
    s->bind("zero", [this] { int t = anon("zero"), n = run(t, "zero", true); rund(t); return n; });
    s->bind("void0", [this] { int t = anon("void0"); run(t, "void0", true); rund(t); });
    s->bind("boom", [this](int t) -> int { run(t, "boom", true); rund(t); throw std::runtime_error("boom"); });
    s->bind("nest", [this](int t) {
      int n = run(t, "nest", true), k = p.call[t].c, t2 = p.call[t].n;
      auto q = sh[k];
      if (q) ask(true, q.get(), t2, nullptr);
      rund(t);
      return n;
    });
  }
  template <typename ...A> void issue(net::connection::Basic *q, int t, std::vector<Fut> *fs, const char *name, A ...a) {
    const Op &o = p.call[t];
    if (o.k == "ntf") {
      bool r = q->send(std::string_view(name), a...);
      EV("\"e\":\"askd\",\"t\":%d,\"ok\":%s", t, b(r));
    } else if (o.k == "async") {
      auto f = q->async_call(name, a...);
      EV("\"e\":\"askd\",\"t\":%d,\"ok\":true", t);
      vs::NoPreempt np;
      (fs ? *fs : nested).push_back({t, std::move(f)});
    } else {
      take(t, [&] { return q->call(name, a...); });
    }
  }
  void ask(bool srv, net::connection::Basic *q, int t, std::vector<Fut> *fs) {
    const Op &o = p.call[t];
    EV("\"e\":\"ask\",\"t\":%d,\"s\":\"%s\",\"c\":%d,\"k\":\"%s\",\"f\":\"%s\"", t, sd(srv), o.c, o.k.c_str(), o.f.c_str());
    if (o.f == "add") issue(q, t, fs, "add", t, t * 3 + 1);
    else if (o.f == "few") issue(q, t, fs, "add", t);
    else if (o.f == "echo") issue(q, t, fs, "echo", t, str_of(t, o.n));
    else if (o.f == "list") issue(q, t, fs, "list", t, list_of(t, o.n));
    else if (o.f == "note") issue(q, t, fs, "note", t);
    else if (o.f == "note3") issue(q, t, fs, "note3", t, str_of(t, 7), -t);
    else if (o.f == "zero") issue(q, t, fs, "zero");
    else if (o.f == "void0") issue(q, t, fs, "void0");
    else if (o.f == "boom") issue(q, t, fs, "boom", t);
    else if (o.f == "nest") issue(q, t, fs, "nest", t);
    else issue(q, t, fs, "nope", t, 1);
  }
  void take(int t, const std::function<U()> &get) {
    const Op &o = p.call[t];
    try {
      U u = get();
      vs::yield_point();
      bool good = true;
      int n = 0;
      if (o.f == "echo") {
        auto x = u.as<std::string>();
        auto at = x.find(':');
        good = at != std::string::npos && x.substr(at + 1) == str_of(t, o.n);
        if (good) n = atoi(x.c_str());
      } else if (o.f == "list") {
        auto x = u.as<std::vector<int>>();
        auto w = list_of(t, o.n);
        good = x.size() == w.size() + 1 && std::equal(w.begin(), w.end(), x.begin());
        if (good) n = x.back();
      } else if (o.f == "add" || o.f == "zero" || o.f == "nest") n = u.as<int>();
      good = good && !u.error_;
      EV("\"e\":\"ret\",\"t\":%d,\"r\":\"val\",\"n\":%d,\"good\":%s", t, n, b(good));
    } catch (const std::exception &e) {
      if (getenv("VS_DEBUG")) fprintf(stderr, "call %d: %s\n", t, e.what());
      EV("\"e\":\"ret\",\"t\":%d,\"r\":\"err\",\"n\":0,\"good\":true", t);
    }
  }
  void thread(const std::vector<Op> &ops) {
    std::vector<Fut> fs;
    for (auto &o : ops) {
      if (o.op == "ask") {
        auto q = o.k == "S" ? sh[o.c] : h[o.c];
        if (q) ask(o.k == "S", q.get(), o.t, &fs);
      } else if (o.op == "get") {
        if (!fs.empty()) { auto f = std::move(fs.front()); fs.erase(fs.begin()); take(f.t, [&] { return f.f.get(); }); }
      } else if (o.op == "shut") {
        auto q = o.k == "S" ? sh[o.c] : h[o.c];
        EV("\"e\":\"shut\",\"c\":%d", o.c);
        if (q) q->shutdown();
      } else if (o.op == "stop") stop(o.c);
    }
    // in an order of its own
    while (!fs.empty()) { auto f = std::move(fs.back()); fs.pop_back(); take(f.t, [&] { return f.f.get(); }); }
  }
  void stop(int side) {
    EV("\"e\":\"stop\",\"s\":\"%s\"", sd(side == 0));
    if (side == 0) s->stop(); else c->stop();
    EV("\"e\":\"stopd\",\"s\":\"%s\"", sd(side == 0));
  }
  std::shared_ptr<ex::Basic> mk(const std::string &k) {
    if (k == "pool") return std::make_shared<ex::ThreadPool>("p", 2, ms(50));
    return std::make_shared<ex::WorkerThread>();
  }
  void go() {
    if (!getenv("VS_DEBUG")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); ::close(n); }
    net::setting_t st;
    st.mode = p.sel ? net::Mode::Select : net::Mode::Epoll;
    st.max_count = 8; st.default_count = 2; st.name = "srv"; st.address = "127.0.0.1:0";
    s = std::make_shared<net::Listener>(st, mk(p.sx));
    net::setting_t ct;
    ct.mode = net::Mode::Epoll;
    ct.max_count = 8; ct.default_count = 2; ct.name = "cli";
    c = std::make_shared<net::Connector>(ct, mk(p.cx));
    bind();
    s->set_dispatcher([this](net::connection::Basic *q, std::shared_ptr<net::packet::Basic> x) {
      int k = (int)x->id() - 200;
      auto own = s->get_conn(q->id());
      vs::NoPreempt np;
      if (k >= 1 && k < (int)sh.size()) sh[k] = own;
      return true;
    });
    if (!s->start() || !c->start()) { EV("\"e\":\"nostart\""); return; }
    auto addr = s->address().text();
    for (size_t k = 1; k < p.tmo.size(); ++k) {
      h[k] = c->connect(addr, [this, k](net::connection::Basic *q) { if (p.tmo[k]) q->set_call_timeout(ms(p.tmo[k])); return true; });
      if (!h[k]) { EV("\"e\":\"noconn\""); return; }
      auto x = std::make_shared<net::packet::Basic>();
      x->set_id((uint16_t)(200 + k));
      x->set_writeable(true);
      *x << (int32_t)k;
      x->set_writeable(false);
      h[k]->send(x);
    }
    vs::set_early_timeout(0);
    vs::wait_quiescent();
    std::vector<std::thread> th;
    for (auto &t : p.th) th.emplace_back([this, &t] { thread(t); });
    for (auto &t : th) t.join();
    if (!p.end) {
      vs::wait_quiescent();
      for (auto &f : nested) take(f.t, [&] { return f.f.get(); });
      nested.clear();
      EV("\"e\":\"settled\"");
    }
    for (char x : p.stop) stop(x == 'S' ? 0 : 1);
    for (auto &f : nested) take(f.t, [&] { return f.f.get(); });
    nested.clear();
    EV("\"e\":\"over\"");
    h.clear(); sh.clear();
    s.reset(); c.reset();
  }
};

static drv::Program build(uint64_t seed, const std::string &mode) {
  drv::Rng g(seed);
  auto P = std::make_shared<Prog>();
  static const std::vector<std::string> xs = {"worker", "pool"};
  P->sx = g.pick(xs);
  P->cx = g.pick(xs);
  P->sel = g.chance(1, 4);
  P->end = mode == "end";
  int nk = g.range(1, 2), nt = g.range(1, 3);
  bool tmo = g.chance(1, 3);
  for (int i = 0; i < nk; ++i) P->tmo.push_back(tmo && g.chance(2, 3) ? g.pick(std::vector<int>{1, 20, 1000}) : 0);
  bool zero = false, void0 = false;
  P->th.resize(nt);
  for (auto &th : P->th) {
    int n = g.range(1, 5);
    for (int i = 0; i < n; ++i) {
      if (g.chance(1, 5)) { th.push_back({"get"}); continue; }
      Op o;
      o.op = "ask";
      o.c = g.range(1, nk);
      o.k = g.chance(1, 12) ? "S" : "C";
      Op d;
      d.c = o.c;
      d.k = g.pick(std::vector<std::string>{"call", "call", "async", "async", "async", "ntf"});
      d.f = g.pick(std::vector<std::string>{"add", "add", "echo", "list", "note", "note3", "zero", "void0", "boom", "nest", "few", "nope"});
      if (o.k == "S") { d.f = g.pick(std::vector<std::string>{"add", "nope"}); }
      if (d.f == "zero") { if (zero) d.f = "add"; zero = true; }
      if (d.f == "void0") { if (void0) d.f = "note"; void0 = true; }
      if (d.f == "echo") d.n = g.pick(std::vector<int>{0, 1, 3, 40, 300, 2000, 5000});
      if (d.f == "list") d.n = g.pick(std::vector<int>{0, 1, 3, 16, 200});
      if (d.f == "add" && g.chance(1, 4)) d.n = -g.pick(std::vector<int>{1, 5, 50});
      P->call.push_back(d);
      o.t = (int)P->call.size() - 1;
      if (d.f == "nest") {
        Op e;
        e.c = o.c; e.k = g.chance(1, 3) ? "ntf" : "async"; e.f = "add";
        P->call.push_back(e);
        P->call[o.t].n = o.t + 1;
      }
      th.push_back(o);
    }
  }
  if (P->end) {
    int n = g.range(1, 2);
    bool stopped = false;
    for (int i = 0; i < n; ++i) {
      auto &v = P->th[g.below(nt)];
      Op o;
      if (!stopped && g.chance(1, 3)) { o.op = "stop"; o.c = g.below(2); stopped = true; }
      else { o.op = "shut"; o.c = g.range(1, nk); o.k = g.chance(1, 2) ? "S" : "C"; }
      v.insert(v.begin() + g.below((int)v.size() + 1), o);
    }
  }
  P->stop = g.chance(1, 2) ? "SC" : "CS";
  std::string s = "{\"sel\":" + std::string(P->sel ? "true" : "false") + ",\"sx\":\"" + P->sx + "\",\"cx\":\"" + P->cx + "\",\"nt\":" + std::to_string(P->call.size() - 1) + ",\"tmo\":[";
  for (size_t i = 1; i < P->tmo.size(); ++i) s += (i > 1 ? "," : "") + std::to_string(P->tmo[i]);
  s += "]}";
  drv::Program p;
  p.scn = s;
  p.opt.max_steps = 3000000;
  p.opt.short_io = g.chance(1, 3) ? 0.3 : 0;
  p.body = [P] { auto *w = new World(*P); w->go(); };
  return p;
}

int main(int argc, char **argv) {
  return drv::run(argc, argv, {{"calls", [](uint64_t s) { return build(s, "calls"); }}, {"end", [](uint64_t s) { return build(s, "end"); }}});
}
