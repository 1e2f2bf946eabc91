// Listener and connector over the loopback: packets, connects, disconnects,
// broadcast, names, limits and stop, under the deterministic scheduler.
#include "driver.h"
#include "plain/concurrency/executor/thread_pool.h"
#include "plain/concurrency/executor/worker_thread.h"
#include "plain/engine/kernel.h"
#include "plain/net/address.h"
#include "plain/net/connection/basic.h"
#include "plain/net/connector.h"
#include "plain/net/listener.h"
#include "plain/net/packet/basic.h"
#include "plain/net/socket/basic.h"
#include <arpa/inet.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
using namespace plain;
using namespace plain::concurrency;
namespace ex = plain::concurrency::executor;
using ms = std::chrono::milliseconds;

struct Tok { int n = 0; std::string act = "none"; int echo = 0; };
struct Op { std::string op; int c = 0; int t = 0; std::vector<int> cuts; bool drip = false; };
using Thread = std::vector<Op>;
struct Prog {
  std::string sx, cx;                 // executors
  bool sel = false;                   // listener works with select
  int smax = 8, cmax = 8, sdef = 2, cdef = 2;
  std::vector<Tok> tok{1};
  std::vector<std::string> kind{"-"}; // clients: conn or raw
  std::vector<std::vector<Thread>> ph;
  bool calm = true;                   // settle between the phases
  std::string stop;                   // order of the final stops
};

static std::byte pat(int t, int i) { return std::byte((t * 37 + i * 7 + i / 251) & 0xff); }
static bytes_t body_of(int t, int n) { bytes_t b; b.resize(n); for (int i = 0; i < n; ++i) b[i] = pat(t, i); return b; }

struct World {
  const Prog &p;
  std::shared_ptr<net::Listener> s;
  std::shared_ptr<net::Connector> c;
  std::string addr;
  std::vector<std::shared_ptr<net::connection::Basic>> h;
  std::vector<int> fd;
  std::map<net::connection::Basic *, int> who;
  explicit World(const Prog &p) : p(p), h(p.kind.size()), fd(p.kind.size(), -1) {}

  int idx(bool srv, net::connection::Basic *b) {
    vs::NoPreempt np;
    if (srv) return (int)b->id();
    auto it = who.find(b);
    return it == who.end() ? 0 : it->second;
  }
  const char *sd(bool srv) { return srv ? "S" : "C"; }
  std::shared_ptr<net::packet::Basic> pk(int t) {
    auto q = std::make_shared<net::packet::Basic>();
    q->set_id((uint16_t)(100 + t));
    q->set_writeable(true);
    auto b = body_of(t, p.tok[t].n);
    if (!b.empty()) q->write(b.data(), b.size());
    q->set_writeable(false);
    return q;
  }
  void send(bool srv, int k, net::connection::Basic *b, int t) {
    EV("\"e\":\"snd\",\"s\":\"%s\",\"c\":%d,\"t\":%d", sd(srv), k, t);
    bool r = b->send(pk(t));
    EV("\"e\":\"sndd\",\"t\":%d,\"ok\":%s", t, r ? "true" : "false");
  }
  std::string nm(bool srv, net::connection::Basic *b) {
    auto n = b->name();
    return n == std::string(srv ? "srv." : "cli.") + std::to_string(b->id()) ? "def" : n;
  }
  void name(bool srv, int k, net::connection::Basic *b, int t) {
    EV("\"e\":\"name\",\"s\":\"%s\",\"c\":%d,\"v\":\"%s\"", sd(srv), k, nm(srv, b).c_str());
    auto v = "n" + std::to_string(t);
    std::string big = v + "XYZ";
    b->set_name(std::string_view(big).substr(0, v.size()));
    EV("\"e\":\"setname\",\"s\":\"%s\",\"c\":%d,\"v\":\"%s\"", sd(srv), k, v.c_str());
    EV("\"e\":\"name\",\"s\":\"%s\",\"c\":%d,\"v\":\"%s\"", sd(srv), k, nm(srv, b).c_str());
  }
  bool dispatch(bool srv, net::connection::Basic *b, std::shared_ptr<net::packet::Basic> q) {
    int k = idx(srv, b), t = (int)q->id() - 100;
    bool good = t >= 1 && t < (int)p.tok.size() && bytes_t(q->data().data(), q->data().size()) == body_of(t, p.tok[t].n);
    EV("\"e\":\"pk\",\"s\":\"%s\",\"c\":%d,\"t\":%d,\"good\":%s", sd(srv), k, t, good ? "true" : "false");
    bool r = true;
    if (good) {
      const Tok &x = p.tok[t];
      if (x.act == "echo") send(srv, k, b, x.echo);
      else if (x.act == "name") name(srv, k, b, t);
      else if (x.act == "shut") { EV("\"e\":\"shut\",\"s\":\"%s\",\"c\":%d", sd(srv), k); b->shutdown(); }
      else if (x.act == "kill") { EV("\"e\":\"shut\",\"s\":\"%s\",\"c\":%d", sd(srv), k); r = false; }
      else vs::yield_point();
    }
    EV("\"e\":\"pkd\",\"s\":\"%s\",\"c\":%d", sd(srv), k);
    return r;
  }
  void up(bool srv, net::connection::Basic *b) { EV("\"e\":\"up\",\"s\":\"%s\",\"c\":%d", sd(srv), idx(srv, b)); }
  void down(bool srv, net::connection::Basic *b) { EV("\"e\":\"down\",\"s\":\"%s\",\"c\":%d", sd(srv), idx(srv, b)); }

  bool raw_write(int k, const char *d, int n) {
    while (n > 0) {
      auto r = ::send(fd[k], d, n, MSG_NOSIGNAL);
      if (r < 0 && errno == EAGAIN) { vs::yield_point(); continue; }
      if (r <= 0) return false;
      d += r; n -= (int)r;
    }
    return true;
  }
  void op(const Op &o) {
    if (o.op == "conn") {
      EV("\"e\":\"conn\",\"c\":%d", o.c);
      if (p.kind[o.c] == "raw") {
        auto a = net::Address{addr, false};
        auto d = a.data();
        fd[o.c] = ::socket(AF_INET, SOCK_STREAM, 0);
        int r = ::connect(fd[o.c], (const sockaddr *)d.data(), (socklen_t)d.size());
        fcntl(fd[o.c], F_SETFL, O_NONBLOCK);
        EV("\"e\":\"connd\",\"c\":%d,\"ok\":%s", o.c, r == 0 ? "true" : "false");
        return;
      }
      auto r = c->connect(addr, [this, &o](net::connection::Basic *b) { vs::NoPreempt np; who[b] = o.c; return true; });
      h[o.c] = r;
      EV("\"e\":\"connd\",\"c\":%d,\"ok\":%s", o.c, r ? "true" : "false");
    } else if (o.op == "send") {
      if (p.kind[o.c] == "raw") {
        if (fd[o.c] < 0) return;
        auto b = net::stream::encode(pk(o.t));
        EV("\"e\":\"snd\",\"s\":\"C\",\"c\":%d,\"t\":%d", o.c, o.t);
        bool ok = true;
        int at = 0, n = (int)b.size();
        for (int x : o.cuts) { int m = std::min(x, n - at); if (m <= 0) break; ok = ok && raw_write(o.c, (char *)b.data() + at, m); at += m; if (o.drip || vs::rnd() % 2) std::this_thread::sleep_for(ms(1)); }
        if (at < n) ok = ok && raw_write(o.c, (char *)b.data() + at, n - at);
        EV("\"e\":\"sndd\",\"t\":%d,\"ok\":%s", o.t, ok ? "true" : "false");
      } else if (h[o.c]) send(false, o.c, h[o.c].get(), o.t);
    } else if (o.op == "shut") {
      if (p.kind[o.c] == "raw") {
        if (fd[o.c] < 0) return;
        EV("\"e\":\"shut\",\"s\":\"C\",\"c\":%d", o.c);
        if (o.t) { struct linger l{1, 0}; setsockopt(fd[o.c], SOL_SOCKET, SO_LINGER, &l, sizeof l); }
        ::close(fd[o.c]);
        fd[o.c] = -1;
        EV("\"e\":\"down\",\"s\":\"C\",\"c\":%d", o.c);
      } else if (h[o.c]) {
        EV("\"e\":\"shut\",\"s\":\"C\",\"c\":%d", o.c);
        h[o.c]->shutdown();
      }
    } else if (o.op == "name") {
      if (h[o.c]) name(false, o.c, h[o.c].get(), o.t);
    } else if (o.op == "bc") {
      bool srv = o.c == 0;
      EV("\"e\":\"bc\",\"s\":\"%s\",\"t\":%d", sd(srv), o.t);
      if (srv) s->broadcast(pk(o.t)); else c->broadcast(pk(o.t));
      EV("\"e\":\"bcd\",\"t\":%d", o.t);
    } else if (o.op == "stop") {
      EV("\"e\":\"stop\",\"s\":\"%s\"", sd(o.c == 0));
      if (o.c == 0) s->stop(); else c->stop();
      EV("\"e\":\"stopd\",\"s\":\"%s\"", sd(o.c == 0));
    }
  }
  std::shared_ptr<ex::Basic> mk(const std::string &k) {
    if (k == "pool") return std::make_shared<ex::ThreadPool>("p", 2, ms(50));
    if (k == "worker") return std::make_shared<ex::WorkerThread>();
    return {};
  }
  void settle() {
    vs::set_early_timeout(0);
    vs::wait_quiescent();
    EV("\"e\":\"settled\",\"ss\":%d,\"sr\":%d,\"cs\":%d,\"cr\":%d,\"sf\":%s,\"cf\":%s", (int)s->send_size(), (int)s->recv_size(), (int)c->send_size(), (int)c->recv_size(),
       s->is_full() ? "true" : "false", c->is_full() ? "true" : "false");
  }
  void go() {
    if (!getenv("VS_DEBUG")) { int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); ::close(n); }
    net::setting_t st;
    st.mode = p.sel ? net::Mode::Select : net::Mode::Epoll;
    st.max_count = p.smax; st.default_count = p.sdef; st.name = "srv"; st.address = "127.0.0.1:0";
    s = std::make_shared<net::Listener>(st, mk(p.sx));
    net::setting_t ct;
    ct.mode = net::Mode::Epoll;
    ct.max_count = p.cmax; ct.default_count = p.cdef; ct.name = "cli";
    c = std::make_shared<net::Connector>(ct, mk(p.cx));
    s->set_dispatcher([this](net::connection::Basic *b, std::shared_ptr<net::packet::Basic> q) { return dispatch(true, b, q); });
    c->set_dispatcher([this](net::connection::Basic *b, std::shared_ptr<net::packet::Basic> q) { return dispatch(false, b, q); });
    s->set_connect_callback([this](net::connection::Basic *b) { up(true, b); });
    c->set_connect_callback([this](net::connection::Basic *b) { up(false, b); });
    s->set_disconnect_callback([this](net::connection::Basic *b) { down(true, b); });
    c->set_disconnect_callback([this](net::connection::Basic *b) { down(false, b); });
    if (!s->start() || !c->start()) { EV("\"e\":\"nostart\""); return; }
    addr = s->address().text();
    for (auto &ph : p.ph) {
      std::vector<std::thread> th;
      for (auto &t : ph) th.emplace_back([this, &t] { for (auto &o : t) op(o); });
      for (auto &t : th) t.join();
      if (p.calm) settle();
    }
    for (char x : p.stop) op({"stop", x == 'S' ? 0 : 1});
    EV("\"e\":\"over\"");
    h.clear();
    s.reset();
    c.reset();
  }
};

static std::string num(const std::vector<std::string> &v) { std::string s, sep; for (auto &x : v) { s += sep + x; sep = ","; } return s; }

static drv::Program build(uint64_t seed, const std::string &mode) {
  drv::Rng g(seed);
  auto P = std::make_shared<Prog>();
  static const std::vector<std::string> xs = {"worker", "pool", "pool"};
  P->sx = g.pick(xs);
  P->cx = g.pick(xs);
  P->sel = g.chance(1, 3);
  bool raw = mode == "raw", churn = mode == "churn", stop = mode == "stop";
  int nk = g.range(1, churn ? 4 : 3);
  for (int i = 0; i < nk; ++i) P->kind.push_back(raw && g.chance(2, 3) ? "raw" : "conn");
  if (churn && g.chance(1, 3)) P->smax = g.range(1, 2);
  if (churn && g.chance(1, 4)) P->cmax = g.range(1, 2);
  P->sdef = std::min(P->smax, g.range(0, 2));
  P->cdef = std::min(P->cmax, g.range(0, 2));
  static const std::vector<int> sizes = {0, 1, 5, 8, 20, 64, 300, 2000};
  bool big = g.chance(1, 4);          // one long packet, which is costly
  bool ending = stop;               // whether connections may end in this phase
  auto tok = [&](const std::string &act) {
    Tok x;
    x.n = g.chance(1, 14) ? 5000 : g.pick(sizes);
    if (big && act != "bc" && g.chance(1, 4)) { x.n = g.pick(std::vector<int>{9000, 21000, 45000}); big = false; }
    x.act = act;
    P->tok.push_back(x);
    int id = (int)P->tok.size() - 1;
    if (act == "echo") {
      Tok y;
      y.n = g.pick(sizes);
      y.act = ending && g.chance(1, 8) ? (g.chance(1, 2) ? "kill" : "shut") : "none";
      P->tok.push_back(y);
      P->tok[id].echo = id + 1;
    }
    return id;
  };
  auto cuts = [&] { std::vector<int> v; int n = g.range(0, 5); for (int i = 0; i < n; ++i) v.push_back(g.chance(1, 2) ? g.range(1, 9) : g.range(1, 400)); return v; };
  int phases = churn ? g.range(2, 4) : stop ? 1 : g.range(1, 2);
  std::vector<bool> open(P->kind.size(), false), dead(P->kind.size(), false);
  for (int f = 0; f < phases; ++f) {
    P->ph.emplace_back();
    int nt = g.range(1, 3);
    auto &ph = P->ph.back();
    ph.resize(nt);
    bool conns = f % 2 == 0;          // odd phases bring connections down
    ending = stop || (churn && !conns);
    // a connection may end while others are made: then one thread makes them all,
    // because a handle is only valid as long as its connection
    bool one = stop || P->smax < (int)P->kind.size() - 1;
    int ct = g.below(nt);
    for (size_t k = 1; k < P->kind.size(); ++k) {
      if (conns && !open[k] && (!churn || g.chance(2, 3))) {
        ph[one ? ct : g.below(nt)].push_back({"conn", (int)k});
        open[k] = true;
      }
    }
    for (int t = 0; t < nt; ++t) {
      std::vector<int> mine;
      for (auto &o : ph[t]) if (o.op == "conn") mine.push_back(o.c);
      int n = g.range(1, 6);
      for (int i = 0; i < n; ++i) {
        std::vector<int> can = mine;
        if (!conns) for (size_t k = 1; k < P->kind.size(); ++k) if (open[k] && !dead[k] && (P->kind[k] == "conn" || (int)k % nt == t)) can.push_back((int)k);
        if (f > 0 && conns && !one) for (size_t k = 1; k < P->kind.size(); ++k) if (open[k] && !dead[k] && P->kind[k] == "conn" && std::find(can.begin(), can.end(), (int)k) == can.end()) {
          bool fresh = false;
          for (auto &q : ph) for (auto &o : q) if (o.op == "conn" && o.c == (int)k) fresh = true;
          if (!fresh) can.push_back((int)k);
        }
        int r = g.below(12);
        if (can.empty()) { if (r < 2) ph[t].push_back({"bc", 0, tok("bc")}); continue; }
        int k = g.pick(can);
        bool conn = P->kind[k] == "conn";
        if (r < 8) {
          std::string a = g.chance(1, 3) && conn ? "echo" : g.chance(1, 12) ? "name" : "none";
          if (((churn && !conns) || stop) && g.chance(1, 6)) a = g.chance(1, 2) ? "kill" : "shut";
          ph[t].push_back({"send", k, tok(a), cuts()});
        } else if (r == 8) ph[t].push_back({"bc", 0, tok("bc")});
        else if (r == 9 && !raw) ph[t].push_back({"bc", 1, tok("bc")});
        else if (r == 10 && conn && !stop && std::find(mine.begin(), mine.end(), k) != mine.end()) ph[t].push_back({"name", k, tok("none")});
        else if ((churn && !conns) || stop || (raw && g.chance(1, 3))) {
          if (stop && !conn) continue;
          if (!conn) { bool own = std::find(mine.begin(), mine.end(), k) != mine.end() || (!conns && k % nt == t); if (!own) continue; }
          if (conn && raw) continue;
          ph[t].push_back({"shut", k, g.below(2)});
        }
      }
    }
    if (stop) {
      auto &v = ph[g.below(nt)];
      v.insert(v.begin() + g.below((int)v.size() + 1), {"stop", g.below(2)});
    }
    // clients whose connection may be over are not used again: new ones connect instead
    if (churn && !conns) {
      for (auto &q : ph) for (auto &o : q) {
        bool dn = o.op == "shut" || (o.op == "send" && (P->tok[o.t].act == "kill" || P->tok[o.t].act == "shut" || (P->tok[o.t].echo && P->tok[P->tok[o.t].echo].act != "none")));
        if (dn) dead[o.c] = true;
      }
      size_t was = P->kind.size();
      for (size_t k = 1; k < was; ++k) if (open[k] && g.chance(1, 2) && P->kind.size() < 7) { P->kind.push_back("conn"); open.push_back(false); dead.push_back(false); }
    }
  }
  // more beginnings of packets than a connection puts up with in a row
  if (raw && g.chance(1, 30)) {
    bool done = false;
    for (auto &th : P->ph[0]) for (size_t i = 0; i < th.size() && !done; ++i) if (th[i].op == "conn" && P->kind[th[i].c] == "raw") {
      done = true;
      int k = th[i].c;
      std::vector<Op> v;
      for (int n = g.range(95, 110); n > 0; --n) {
        Tok x;
        x.n = g.range(0, 3);
        P->tok.push_back(x);
        v.push_back({"send", k, (int)P->tok.size() - 1, {g.range(1, 6)}, true});
      }
      th.insert(th.begin() + i + 1, v.begin(), v.end());
    }
  }
  P->calm = !stop;
  P->stop = g.chance(1, 2) ? "SC" : "CS";
  std::string s = "{\"sel\":" + std::string(P->sel ? "true" : "false") + ",\"sx\":\"" + P->sx + "\",\"cx\":\"" + P->cx + "\",\"smax\":" + std::to_string(P->smax) + ",\"cmax\":" + std::to_string(P->cmax) + ",\"kind\":[";
  std::vector<std::string> v;
  for (size_t i = 1; i < P->kind.size(); ++i) v.push_back("\"" + P->kind[i] + "\"");
  s += num(v) + "],\"size\":[";
  v.clear();
  for (size_t i = 1; i < P->tok.size(); ++i) v.push_back(std::to_string(P->tok[i].n));
  s += num(v) + "]}";
  drv::Program p;
  p.scn = s;
  p.opt.max_steps = 3000000;
  p.opt.short_io = g.chance(1, 2) ? 0.3 : 0;
  p.opt.eintr = g.chance(1, 4) ? 0.1 : 0;
  p.body = [P] { auto *w = new World(*P); w->go(); };
  return p;
}

int main(int argc, char **argv) {
  return drv::run(argc, argv, {{"data", [](uint64_t s) { return build(s, "data"); }}, {"churn", [](uint64_t s) { return build(s, "churn"); }},
                               {"raw", [](uint64_t s) { return build(s, "raw"); }}, {"stop", [](uint64_t s) { return build(s, "stop"); }}});
}
