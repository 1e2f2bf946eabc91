// Logging: records appended directly or with the LOG_ macros by several threads, small files, stop and destruction.
#include "driver.h"
#include "plain/basic/async_logger.h"
#include "plain/basic/logger.h"
#include "plain/basic/global.h"
#include <algorithm>
#include <filesystem>
#include <thread>
#include <unistd.h>
using namespace plain;
namespace fs = std::filesystem;
using ms = std::chrono::milliseconds;

static std::string root;

struct Op { std::string op; int k = 0; int n = 0; };
struct Prog { int interval = 1; int roll = 0; std::string level; std::vector<Op> pre; std::vector<std::vector<Op>> cl; int early = 0; bool calm = false, stop = true; };
static const char *LV[] = {"trace", "debug", "info", "warn", "error"};

static std::string payload(int k, int n) {
  char h[32];
  snprintf(h, sizeof h, "R%03d:%08d:", k, n);
  std::string s = h;
  size_t at = s.size();
  s.resize(at + n);
  for (int i = 0; i < n; ++i) s[at + i] = (char)('a' + (k * 7 + i) % 23);
  return s + ";";
}

struct World {
  const Prog &p;
  std::unique_ptr<AsyncLogger> lg;
  std::string dir;
  std::vector<std::string> made;   // by number of record: the payload
  std::vector<std::string> kind;
  explicit World(const Prog &p) : p(p), made(64), kind(64) {}
  bool on(const std::string &v) {
    auto ix = [](const std::string &s) { int i = 0; for (auto l : LV) { if (s == l) return i; ++i; } return 99; };
    return v == "raw" || ix(v) >= ix(p.level);
  }
  void app(int w, const Op &o) {
    if (o.op == "sleep") { std::this_thread::sleep_for(ms(o.n)); return; }
    std::string s = made[o.k];
    EV("\"e\":\"app\",\"t\":%d,\"k\":%d,\"on\":%s", w, o.k, on(o.op) ? "true" : "false");
    if (o.op == "raw") { s += "\n"; lg->append(s); }
    else if (o.op == "trace") { LOG_TRACE << s; }
    else if (o.op == "debug") { LOG_DEBUG << s; }
    else if (o.op == "info") { LOG_INFO << s; }
    else if (o.op == "warn") { LOG_WARN << s.c_str(); }
    else LOG_ERROR << s;
    EV("\"e\":\"apd\",\"t\":%d,\"k\":%d", w, o.k);
  }
  // the records in the files, in the order of the files' names; ok: nothing else is in them
  void read(bool all) {
    std::vector<std::string> names;
    std::string d, v;
    bool ok = true;
    vs::NoPreempt np;
    for (auto &f : fs::directory_iterator(dir)) names.push_back(f.path().string());
    std::sort(names.begin(), names.end());
    for (auto &n : names) {
      FILE *f = fopen(n.c_str(), "r");
      size_t at = d.size(), z = (size_t)fs::file_size(n);
      d.resize(at + z);
      d.resize(at + fread(&d[at], 1, z, f));
      fclose(f);
    }
    size_t b = 0;
    while (b < d.size()) {
      size_t e = d.find('\n', b);
      if (e == std::string::npos) {       // a record that is partly there: only while the logger works
        if (all) ok = false;
        break;
      }
      std::string_view l(&d[b], e - b);
      b = e + 1;
      size_t r = l.find("R");
      bool good = false;
      for (int k = 1; k < 64; ++k) {
        auto &m = made[k];
        if (m.empty()) continue;
        size_t x = l.find(std::string_view(m).substr(0, 5));
        if (x == std::string_view::npos) continue;
        if (l.substr(x, m.size()) != m) break;
        if (kind[k] == "raw") good = x == 0 && l.size() == m.size();
        else {
          std::string lev = kind[k];
          for (auto &c : lev) c = (char)toupper(c);
          auto head = l.substr(0, x), tail = l.substr(x + m.size());
          good = head.find(lev) != std::string_view::npos && tail.size() > 3 && tail[0] == '-' && tail.find("h_log.cc:") != std::string_view::npos;
        }
        if (good) v += (v.empty() ? "" : ",") + std::to_string(k);
        break;
      }
      (void)r;
      if (!good) { ok = false; break; }
    }
    EV("\"e\":\"read\",\"all\":%s,\"ok\":%s,\"v\":[%s]", all ? "true" : "false", ok ? "true" : "false", v.c_str());
  }
  void go() {
    {
      vs::NoPreempt np;
      dir = root + "/run";
      fs::remove_all(dir);
      fs::create_directories(dir);
      GLOBALS["log.directory"] = dir.c_str();
      for (auto &c : p.cl) for (auto &o : c) if (o.k) { made[o.k] = payload(o.k, o.n); kind[o.k] = o.op; }
      for (auto &o : p.pre) if (o.k) { made[o.k] = payload(o.k, o.n); kind[o.k] = o.op; }
      int i = 0;
      for (auto l : LV) { if (p.level == l) Logger::set_level((LogLevel)i); ++i; }
    }
    lg = std::make_unique<AsyncLogger>("v", (size_t)p.roll, p.interval);
    Logger::set_output([this](const std::string_view &s) { lg->append(s); });
    for (auto &o : p.pre) app(0, o);
    lg->start();
    std::vector<std::thread> th;
    for (size_t i = 0; i < p.cl.size(); ++i) th.emplace_back([this, i] { for (auto &o : p.cl[i]) app((int)i + 1, o); });
    if (p.early) {      // the stop comes while they are at work
      std::this_thread::sleep_for(ms(p.early - 1));
      EV("\"e\":\"stop\"");
      lg->stop();
      EV("\"e\":\"stopd\"");
      read(true);
      for (auto &t : th) t.join();
    } else {
      for (auto &t : th) t.join();
      if (p.calm) {
        read(false);
        vs::set_early_timeout(0);
        std::this_thread::sleep_for(ms(p.interval * 1000 + 100));
        read(true);
      }
      EV("\"e\":\"stop\"");
      if (p.stop) lg->stop(); else { Logger::set_output([](const std::string_view &) {}); lg.reset(); }
      EV("\"e\":\"stopd\"");
      read(true);
    }
    Logger::set_output([](const std::string_view &) {});
    lg.reset();
  }
};

static drv::Program build(uint64_t seed, bool big) {
  drv::Rng g(seed);
  auto P = std::make_shared<Prog>();
  P->interval = g.pick(std::vector<int>{1, 1, 3});
  P->roll = g.pick(std::vector<int>{1, 60, 300, 1 << 20, 1 << 30});
  P->level = LV[g.range(0, 3)];
  int k = 0;
  auto rec = [&](int sl) {
    Op o;
    if (g.chance(sl, 10)) { o.op = "sleep"; o.n = g.pick(std::vector<int>{0, 1, 500, 1000, 1001, 2500}); return o; }
    o.k = ++k;
    if (g.chance(1, 3)) { o.op = LV[g.range(0, 4)]; o.n = g.pick(std::vector<int>{0, 1, 40, 3000}); return o; }
    o.op = "raw";
    // 4 MiB buffers: together with its number, end mark and line end a record is 16 bytes longer
    o.n = big ? g.pick(std::vector<int>{1, 70000, 1400000, 2097000, 2097136, 2097137, 4194304 - 17, 4194304 - 16 - 100}) : g.pick(std::vector<int>{0, 1, 30, 200, 70000});
    return o;
  };
  if (g.chance(1, 4)) for (int i = g.range(1, 2); i > 0; --i) P->pre.push_back(rec(0));
  int nt = g.range(1, 3);
  P->cl.resize(nt);
  for (auto &c : P->cl) for (int i = g.range(1, big ? 4 : 6); i > 0; --i) c.push_back(rec(2));
  int e = g.below(3);
  if (e == 0) P->early = g.pick(std::vector<int>{1, 1, 2, 501, 1001});
  else P->calm = e == 1;
  P->stop = g.chance(2, 3);
  drv::Program r;
  r.scn = "{\"n\":" + std::to_string(nt) + "}";
  r.opt.early_timeout = g.chance(1, 2) ? 0.02 : 0;
  r.opt.spurious = g.chance(1, 3) ? 0.05 : 0;
  r.opt.coarse = 4096;
  r.opt.mem_points = !big;
  r.body = [P] { World w(*P); w.go(); };
  return r;
}

int main(int argc, char **argv) {
  root = "/tmp/vlog." + std::to_string(getpid());
  fs::create_directories(root);
  int rc = drv::run(argc, argv, {{"log", [](uint64_t s) { return build(s, false); }}, {"biglog", [](uint64_t s) { return build(s, true); }}});
  if (!getenv("VS_KEEP")) fs::remove_all(root);
  return rc;
}
