// The engine: what it gives out and how it ends (engine); its list of networks
// and its console (console).
#include "driver.h"
#include "plain/concurrency/executor/inline.h"
#include "plain/concurrency/executor/manual.h"
#include "plain/concurrency/executor/thread.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/engine/kernel.h"
#include "plain/engine/timer_queue.h"
#include "plain/engine/timer.h"
#include "plain/net/address.h"
#include "plain/net/connection/basic.h"
#include "plain/net/connector.h"
#include "plain/net/listener.h"
#include "plain/net/packet/basic.h"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace plain;
namespace ex = plain::concurrency::executor;
using ms = std::chrono::milliseconds;

static std::string js(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += (char)c;
  }
  return r + "\"";
}
static std::string jl(const std::vector<std::string> &v) { std::string s = "[", sep; for (auto &x : v) { s += sep + js(x); sep = ","; } return s + "]"; }
static void quiet_io() { if (!getenv("VS_DEBUG")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); ::close(n); } }

// ---------------------------------------------------------------- console
struct Net { std::string name; int max = 4; bool lis = true; bool sel = false; };
struct Op { std::string op; int i = 0; std::string line; std::string desc; };
struct Prog {
  std::vector<Net> net{1};
  std::vector<std::vector<std::vector<Op>>> ph;
  bool taken = false;         // a network of the user is called console
  bool bad_first = false;     // the console is first asked for at an address that cannot be had
};
struct Eng : plain::Singleton<plain::Kernel> { static void reset() { singleton_.reset(); } };

static std::vector<std::string> split(const std::string &s, const std::string &sep) {
  std::vector<std::string> v;
  size_t b = 0;
  for (;;) {
    auto e = s.find(sep, b);
    if (e == std::string::npos) { v.push_back(s.substr(b)); return v; }
    v.push_back(s.substr(b, e - b));
    b = e + sep.size();
  }
}

struct World {
  const Prog &p;
  std::vector<std::shared_ptr<net::Listener>> l;
  std::vector<std::shared_ptr<net::Connector>> c;
  std::string addr;
  std::map<int, int> con;        // console connection of a thread
  explicit World(const Prog &p) : p(p), l(p.net.size()), c(p.net.size()) {}

  static int dial(const std::string &a) {
    auto d = net::Address{a, false}.data();
    int f = ::socket(AF_INET, SOCK_STREAM, 0);
    if (::connect(f, (const sockaddr *)d.data(), (socklen_t)d.size()) != 0) { ::close(f); return -1; }
    fcntl(f, F_SETFL, O_NONBLOCK);
    return f;
  }
  // what the console answers: a text that ends in a line end, "none" or "closed"
  std::string ask(int t, const std::string &line, std::string &r) {
    if (!con.count(t) || con[t] < 0) con[t] = dial(addr);
    if (con[t] < 0) return "closed";
    std::string d = line + "\n";
    size_t at = 0;
    while (at < d.size()) {
      auto n = ::send(con[t], d.data() + at, d.size() - at, MSG_NOSIGNAL);
      if (n > 0) { at += (size_t)n; continue; }
      if (n < 0 && (errno == EAGAIN || errno == EINTR)) { vs::yield_point(); continue; }
      break;
    }
    bool end = false;
    for (int i = 0; i < 200; ++i) {
      char buf[4096];
      auto n = ::recv(con[t], buf, sizeof buf, 0);
      if (n > 0) { r.append(buf, (size_t)n); end = false; continue; }
      if (n == 0 || (errno != EAGAIN && errno != EINTR)) { ::close(con[t]); con[t] = -1; return "closed"; }
      if (r.size() >= 2 && r.substr(r.size() - 2) == "\r\n") { if (end) { r.resize(r.size() - 2); return "text"; } end = true; }
      if (i < 5) vs::wait_quiescent(); else std::this_thread::sleep_for(ms(20));
    }
    return "none";
  }
  std::string start(int i) {
    const Net &n = p.net[i];
    net::setting_t st;
    st.name = n.name; st.max_count = (uint32_t)n.max; st.default_count = 1;
    st.mode = n.sel ? net::Mode::Select : net::Mode::Epoll;
    try {
      if (n.lis) {
        st.address = "127.0.0.1:0";
        l[i] = std::make_shared<net::Listener>(st);
        return l[i]->start() ? "ok" : "fail";
      }
      c[i] = std::make_shared<net::Connector>(st);
      return c[i]->start() ? "ok" : "fail";
    } catch (const std::runtime_error &) { return "threw"; }
  }
  void op(int t, const Op &o) {
    if (o.op == "start") {
      EV("\"e\":\"start\",\"t\":%d,\"i\":%d", t, o.i);
      auto r = start(o.i);
      EV("\"e\":\"ret\",\"t\":%d,\"r\":%s", t, js(r).c_str());
    } else if (o.op == "stop") {
      if (!l[o.i] && !c[o.i]) return;
      EV("\"e\":\"stop\",\"t\":%d,\"i\":%d", t, o.i);
      if (l[o.i]) l[o.i]->stop(); else c[o.i]->stop();
      EV("\"e\":\"ret\",\"t\":%d,\"r\":\"ok\"", t);
    } else if (o.op == "running") {
      if (!l[o.i] && !c[o.i]) return;
      EV("\"e\":\"running\",\"t\":%d,\"i\":%d", t, o.i);
      bool r = l[o.i] ? l[o.i]->running() : c[o.i]->running();
      EV("\"e\":\"ret\",\"t\":%d,\"r\":\"%s\"", t, r ? "yes" : "no");
    } else if (o.op == "reg") {
      EV("\"e\":\"reg\",\"t\":%d,\"cmd\":%s,\"h\":%d,\"desc\":%s", t, js(o.line).c_str(), o.i, js(o.desc).c_str());
      int h = o.i;
      ENGINE->register_console_handler(o.line, [h](const std::vector<std::string> &a) {
        if (h == 0) return std::string();
        std::string r = "h" + std::to_string(h) + ":";
        for (auto &x : a) r += x + ";";
        return r;
      }, o.desc);
      EV("\"e\":\"ret\",\"t\":%d,\"r\":\"ok\"", t);
    } else if (o.op == "cmd") {
      std::vector<std::string> w;
      std::string txt = o.line;
      if (!txt.empty() && txt.back() == '\r') txt.pop_back();
      for (auto &x : split(txt, " ")) if (!x.empty()) w.push_back(x);
      std::string cmd = w.empty() ? "" : w[0];
      if (!w.empty()) w.erase(w.begin());
      EV("\"e\":\"cmd\",\"t\":%d,\"cmd\":%s,\"w\":%s", t, js(cmd).c_str(), jl(w).c_str());
      std::string r;
      auto k = ask(t, o.line, r);
      if (k != "text") { EV("\"e\":\"ans\",\"t\":%d,\"k\":\"%s\"", t, k.c_str()); return; }
      auto ls = split(r, "\r\n");
      if (cmd == "list" && r.rfind("Total: ", 0) == 0) {
        std::string tot = ls[0].rfind("Total: ", 0) == 0 ? ls[0].substr(7) : "?", q;
        for (size_t i = 1; i < ls.size(); ++i) {
          auto f = [&](const std::string &a, const std::string &b) -> std::string {
            auto x = ls[i].find(a);
            if (x == std::string::npos) return "?";
            x += a.size();
            auto y = b.empty() ? ls[i].size() : ls[i].find(b, x);
            return y == std::string::npos ? "?" : ls[i].substr(x, y - x);
          };
          q += std::string(i > 1 ? "," : "") + "{\"name\":" + js(f("\t", " count: ")) + ",\"count\":" + js(f(" count: ", " maxcount: ")) + ",\"max\":" + js(f(" maxcount: ", " send: ")) +
               ",\"mode\":" + js(f(" mode: ", "")) + "}";
        }
        EV("\"e\":\"ans\",\"t\":%d,\"k\":\"list\",\"total\":%s,\"nets\":[%s]", t, js(tot).c_str(), q.c_str());
      } else if (cmd == "help") {
        EV("\"e\":\"ans\",\"t\":%d,\"k\":\"help\",\"ls\":%s,\"s\":%s", t, jl(ls).c_str(), js(r).c_str());
      } else {
        EV("\"e\":\"ans\",\"t\":%d,\"k\":\"text\",\"s\":%s", t, js(r).c_str());
      }
    } else if (o.op == "conn") {        // a client of network i; the console's list must count it
      if (!l[o.i]) return;
      EV("\"e\":\"conn\",\"i\":%d", o.i);
      int f = dial(l[o.i]->address().text());
      vs::wait_quiescent();
      EV("\"e\":\"connd\",\"i\":%d,\"ok\":%s", o.i, f >= 0 ? "true" : "false");
    }
  }
  void go() {
    quiet_io();
    (void)ENGINE;
    if (p.bad_first) { bool r = ENGINE->enable_console("203.0.113.7:1"); EV("\"e\":\"enable\",\"a\":\"bad\",\"r\":%s", r ? "true" : "false"); }
    if (p.taken) {
      net::setting_t st;
      st.name = "console"; st.address = "127.0.0.1:0";
      auto u = std::make_shared<net::Listener>(st);
      bool r = u->start() && ENGINE->enable_console("127.0.0.1:0");
      EV("\"e\":\"enable\",\"a\":\"taken\",\"r\":%s", r ? "true" : "false");
      u->stop();
      u.reset();
      Eng::reset();
      EV("\"e\":\"ended\"");
      return;
    }
    // a free port; somebody else may take it before the console does
    bool r = false;
    for (int i = 0; i < 5 && !r; ++i) {
      int f = ::socket(AF_INET, SOCK_STREAM, 0);
      sockaddr_in a{};
      a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      socklen_t n = sizeof a;
      if (::bind(f, (sockaddr *)&a, n) || ::getsockname(f, (sockaddr *)&a, &n)) { EV("\"e\":\"nostart\""); return; }
      ::close(f);
      addr = "127.0.0.1:" + std::to_string(ntohs(a.sin_port));
      r = ENGINE->enable_console(addr);
    }
    EV("\"e\":\"enable\",\"a\":\"good\",\"r\":%s", r ? "true" : "false");
    if (!r) return;
    for (auto &ph : p.ph) {
      std::vector<std::thread> th;
      for (size_t t = 0; t < ph.size(); ++t) th.emplace_back([this, &ph, t] { for (auto &o : ph[t]) op((int)t + 1, o); });
      for (auto &t : th) t.join();
      vs::wait_quiescent();
      EV("\"e\":\"calm\"");
    }
    r = ENGINE->enable_console(addr);
    EV("\"e\":\"enable\",\"a\":\"again\",\"r\":%s", r ? "true" : "false");
    for (size_t i = 1; i < p.net.size(); ++i) { op(1, {"stop", (int)i}); l[i].reset(); c[i].reset(); }
    EV("\"e\":\"over\"");
    Eng::reset();
    EV("\"e\":\"ended\"");
  }
};

static drv::Program console(uint64_t seed) {
  drv::Rng g(seed);
  auto P = std::make_shared<Prog>();
  P->bad_first = g.chance(1, 6);
  P->taken = g.chance(1, 40);
  static const std::vector<std::string> names = {"a", "b", "b", "cc", "", "", "unknown1", "unknown2", "a.b"};
  int nn = g.range(1, 5);
  for (int i = 0; i < nn; ++i) P->net.push_back({g.pick(names), g.range(1, 5), !g.chance(1, 3), g.chance(1, 4)});
  static const std::vector<std::string> cmds = {"go", "x", "list", "help", "go2"};
  static const std::vector<std::string> descs = {"", "does this", "does that", "z"};
  std::vector<bool> started(P->net.size(), false);
  int phases = g.range(1, 4);
  int hid = 0;
  for (int f = 0; f < phases; ++f) {
    P->ph.emplace_back();
    auto &ph = P->ph.back();
    int nt = g.chance(1, 2) ? 1 : 2;
    ph.resize(nt);
    std::vector<int> mine;
    for (int t = 0; t < nt; ++t) {
      int n = g.range(2, nt == 1 ? 8 : 5);
      for (int j = 0; j < n; ++j) {
        int i = g.range(1, nn);
        bool here = i % nt == t;
        int r = g.below(16);
        if (r < 5 && here && !started[i]) { started[i] = true; ph[t].push_back({"start", i}); }
        else if (r < 6 && here && started[i]) ph[t].push_back({"stop", i});
        else if (r < 7 && here && started[i]) ph[t].push_back({"running", i});
        else if (r < 8 && nt == 1 && started[i]) ph[t].push_back({"conn", i});
        else if (r < 10) { auto d = g.pick(descs); ph[t].push_back({"reg", g.chance(1, 6) ? 0 : ++hid, g.chance(1, 8) ? g.pick(cmds) : cmds[g.pick(std::vector<int>{0, 1, 4})], d}); }
        else {
          static const std::vector<std::string> ws = {"a", "b", "cc", "unknown1", "unknown2", "nobody", "console", "a.b", "go", "x", "list", "kill"};
          std::string s;
          switch (g.below(7)) {
            case 0: case 1: s = "list"; break;
            case 2: s = nt == 1 ? "help" : "go"; break;
            case 3: s = g.chance(1, 3) ? "killall" : "kill"; break;
            case 4: s = "go"; break;
            case 5: s = g.pick(std::vector<std::string>{"x", "go2", "LIST", "he"}); break;
            default: s = "list";
          }
          if (s != "list" && s != "killall") {
            int m = g.range(s == "kill" ? 1 : 0, 3);
            for (int q = 0; q < m; ++q) { auto x = g.pick(ws); if (s.find(" " + x + " ") == std::string::npos && !(s.size() > x.size() && s.substr(s.size() - x.size() - 1) == " " + x)) s += (g.chance(1, 6) ? "  " : " ") + x; }
          }
          if (g.chance(1, 8)) s = " " + s;
          if (g.chance(1, 8)) s += "\r";
          ph[t].push_back({"cmd", 0, s});
        }
      }
    }
  }
  std::string s = "{\"nets\":[", sep;
  for (size_t i = 1; i < P->net.size(); ++i) {
    auto &n = P->net[i];
    s += sep + "{\"name\":" + js(n.name) + ",\"max\":\"" + std::to_string(n.max) + "\",\"lis\":" + (n.lis ? "true" : "false") + ",\"mode\":\"" + (n.sel ? "select" : "epoll") + "\"}";
    sep = ",";
  }
  drv::Program p;
  p.scn = s + "]}";
  p.opt.max_steps = 3000000;
  p.opt.short_io = g.chance(1, 4) ? 0.3 : 0;
  p.body = [P] { auto *w = new World(*P); w->go(); };
  return p;
}

// ---------------------------------------------------------------- engine
struct Job { int k = 0, x = 0; bool nap = false; int next = 0; int delay = -1; };
struct EProg {
  int cpu = 1, bg = 1, wc = 50, wb = 60, wt = 70, workers = 0, manuals = 0;
  std::vector<Job> job{1};
  std::vector<std::vector<int>> th;   // jobs posted by each thread
  std::vector<int> late;              // posted by a thread while the engine ends
  std::vector<int> after;             // posted afterwards
  bool pump = false;                  // a thread works on the manual executors
};
static drv::Program engine(uint64_t seed) {
  drv::Rng g(seed);
  auto P = std::make_shared<EProg>();
  P->cpu = g.range(1, 3);
  P->bg = g.range(1, 3);
  P->wc = g.pick(std::vector<int>{3, 100, 100000000});
  P->wb = g.pick(std::vector<int>{4, 200, 100000001});
  P->wt = g.pick(std::vector<int>{5, 300, 100000002});
  P->workers = g.range(0, 2);
  P->manuals = g.range(0, 2);
  P->pump = P->manuals > 0 && g.chance(1, 2);
  int nx = 4 + P->workers + P->manuals;
  auto job = [&](bool sub, auto &self) -> int {
    Job j;
    j.x = g.range(1, nx);
    j.nap = g.chance(1, 4);
    if (!sub && g.chance(1, 5)) j.delay = g.range(0, 5);
    P->job.push_back(j);
    int k = (int)P->job.size() - 1;
    if (g.chance(1, 4) && k < 14) { int q = self(true, self); P->job[k].next = q; }
    return k;
  };
  int nt = g.range(1, 3);
  P->th.resize(nt);
  for (auto &t : P->th) { int n = g.range(1, 4); for (int i = 0; i < n; ++i) t.push_back(job(false, job)); }
  for (int n = g.below(4); n > 0; --n) P->late.push_back(job(true, job));
  for (int n = g.range(1, 4); n > 0; --n) P->after.push_back(job(true, job));
  std::string s = "{\"cpu\":" + std::to_string(P->cpu) + ",\"bg\":" + std::to_string(P->bg) + ",\"wc\":" + std::to_string(P->wc) + ",\"wb\":" + std::to_string(P->wb) + ",\"wt\":" + std::to_string(P->wt) +
                  ",\"workers\":" + std::to_string(P->workers) + ",\"manuals\":" + std::to_string(P->manuals) + ",\"x\":[", sep;
  for (size_t i = 1; i < P->job.size(); ++i) { s += sep + std::to_string(P->job[i].x); sep = ","; }
  drv::Program p;
  p.scn = s + "]}";
  p.opt.early_timeout = g.chance(1, 2) ? 0.02 : 0;
  p.body = [P] {
    quiet_io();
    struct S {
      EProg &p;
      std::vector<std::shared_ptr<ex::Basic>> x{1};
      std::vector<std::shared_ptr<Timer>> tm;
      std::shared_ptr<TimerQueue> tq;
      std::atomic<bool> done{false};
      std::function<void()> body(int k) {
        return [this, k] {
          EV("\"e\":\"run\",\"k\":%d,\"th\":%d", k, vs::tid());
          if (p.job[k].nap) std::this_thread::sleep_for(ms(2)); else vs::yield_point();
          if (p.job[k].next) post(p.job[k].next);
          EV("\"e\":\"ran\",\"k\":%d", k);
        };
      }
      void post(int k) {
        const Job &j = p.job[k];
        EV("\"e\":\"post\",\"k\":%d,\"tm\":%s", k, j.delay >= 0 ? "true" : "false");
        bool ok = true;
        try {
          if (j.delay >= 0) {
            auto t = tq->make_one_shot_timer(ms(j.delay), x[j.x], body(k));
            vs::NoPreempt np;
            tm.push_back(std::make_shared<Timer>(std::move(t)));
          } else x[j.x]->post(body(k));
        } catch (const std::exception &) { ok = false; }
        EV("\"e\":\"posted\",\"k\":%d,\"ok\":%s", k, ok ? "true" : "false");
      }
    };
    auto *s = new S{*P};
    engine_option o;
    o.max_cpu_threads = (size_t)P->cpu; o.max_background_threads = (size_t)P->bg;
    o.max_thread_pool_executor_waiting_time = ms(P->wc); o.max_background_executor_waiting_time = ms(P->wb); o.max_timer_queue_waiting_time = ms(P->wt);
    o.thread_started_callback = [](std::string_view) { EV("\"e\":\"ts\",\"th\":%d", vs::tid()); };
    o.thread_terminated_callback = [](std::string_view) { EV("\"e\":\"te\",\"th\":%d", vs::tid()); };
    auto *k = new Kernel(o);
    s->tq = k->timer_queue();
    auto pool = k->thread_pool_executor(), bg = k->background_executor();
    s->x.push_back(k->inline_executor());
    s->x.push_back(pool);
    s->x.push_back(bg);
    s->x.push_back(k->thread_executor());
    EV("\"e\":\"opt\",\"cpu\":%d,\"bg\":%d,\"wc\":%d,\"wb\":%d,\"wt\":%d", (int)pool->max_concurrency_level(), (int)bg->max_concurrency_level(), (int)pool->max_worker_idle_time().count(),
       (int)bg->max_worker_idle_time().count(), (int)s->tq->max_worker_idle_time().count());
    std::vector<std::shared_ptr<ex::Manual>> man;
    for (int i = 0; i < P->workers; ++i) s->x.push_back(k->make_worker_thread_executor());
    for (int i = 0; i < P->manuals; ++i) { man.push_back(k->make_manual_executor()); s->x.push_back(man.back()); }
    bool same = k->timer_queue() == s->tq && k->inline_executor() == s->x[1] && k->thread_pool_executor() == pool && k->background_executor() == bg && k->thread_executor() == s->x[4];
    for (size_t a = 1; a < s->x.size(); ++a) for (size_t b = 1; b < a; ++b) if (s->x[a] == s->x[b]) same = false;
    EV("\"e\":\"same\",\"r\":%s", same ? "true" : "false");
    std::thread pump;
    if (P->pump) pump = std::thread([s, man] { while (!s->done) { for (auto &m : man) try { while (m->loop_once_for(ms(1))) {} } catch (const std::exception &) { return; } } });
    std::vector<std::thread> th;
    for (auto &t : P->th) th.emplace_back([s, &t] { for (int q : t) s->post(q); });
    for (auto &t : th) t.join();
    std::thread late([s] { for (int q : s->p.late) s->post(q); });
    EV("\"e\":\"ending\"");
    delete k;
    EV("\"e\":\"ended\"");
    for (size_t i = 1; i < s->x.size(); ++i) EV("\"e\":\"shut\",\"x\":%d,\"r\":%s", (int)i, s->x[i]->shutdown_requested() ? "true" : "false");
    EV("\"e\":\"shut\",\"x\":0,\"r\":%s", s->tq->shutdown_requested() ? "true" : "false");
    for (int q : P->after) s->post(q);
    s->done = true;
    late.join();
    if (pump.joinable()) pump.join();
    s->tm.clear();
    vs::wait_quiescent();
    EV("\"e\":\"quiet\"");
  };
  return p;
}
int main(int argc, char **argv) { return drv::run(argc, argv, {{"engine", engine}, {"console", console}}); }
