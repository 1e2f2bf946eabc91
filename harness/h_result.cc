// Result / ResultPromise: one producer thread, one consumer thread.
#include "driver.h"
#include "plain/concurrency/result/basic.h"
#include "plain/concurrency/result/make.h"
#include "plain/concurrency/result/promise.h"
#include "plain/concurrency/result/awaitable.h"
#include "values.h"
#include <thread>
using namespace plain::concurrency;

using val::Boom;
static const char *stname(ResultStatus s) {
  return s == ResultStatus::Idle ? "idle" : s == ResultStatus::Value ? "value" : "exception";
}

struct COp { std::string op; int arg; };

struct Ctx { std::string pkind; int pval; int pdelay; bool by_move; std::vector<COp> cops; int cdelay; bool crossed; int ty; bool bad; };

template <class T> static result::null await_it(Result<T> r, bool resolve) {
  if (resolve) {
    EV("\"e\":\"call\",\"l\":\"c\",\"op\":\"resolve\",\"a\":0");
    auto rr = co_await r.resolve();
    std::string o = stname(rr.status());
    EV("\"e\":\"ret\",\"l\":\"c\",\"op\":\"resolve\",\"r\":\"%s\",\"d\":0", o.c_str());
    EV("\"e\":\"call\",\"l\":\"c\",\"op\":\"get\",\"a\":0");
    std::string g = val::got<T>([&]() -> decltype(auto) { return rr.get(); });
    EV("\"e\":\"ret\",\"l\":\"c\",\"op\":\"get\",\"r\":\"%s\",\"d\":0", g.c_str());
  } else {
    EV("\"e\":\"call\",\"l\":\"c\",\"op\":\"await\",\"a\":0");
    std::string g;
    try {
      if constexpr (std::is_void_v<T>) { co_await r; g = "val0"; }
      else { T v = co_await r; g = val::show(v); }
    }
    catch (const Boom &b) { g = "exc" + std::to_string(b.v); }
    catch (const std::exception &) { g = "broken"; }
    EV("\"e\":\"ret\",\"l\":\"c\",\"op\":\"await\",\"r\":\"%s\",\"d\":0", g.c_str());
  }
}

template <class T> static void body(const Ctx &c) {
  ResultPromise<T> pr;
  Result<T> res = pr.get_result();
  auto publish = [&] {
    if (c.bad) {
      std::string r = "none";
      try { pr.set_exception(nullptr); } catch (const std::exception &) { r = "thrown"; }
      EV("\"e\":\"bad\",\"r\":\"%s\"", r.c_str());
    }
    if (c.pkind == "val") {
      if constexpr (std::is_void_v<T>) pr.set_result();
      else if constexpr (std::is_same_v<T, val::Tr>) { if (c.pval % 2) pr.set_result(c.pval); else pr.set_result(val::Tr(c.pval)); }
      else pr.set_result(val::mk<T>(c.pval));
    }
    else if (c.pkind == "exc") pr.set_exception(std::make_exception_ptr(Boom{c.pval}));
    else if (c.pkind == "fnval") pr.set_from_function([&c]() -> T { EV("\"e\":\"fn\""); return val::mk<T>(c.pval); });
    else if (c.pkind == "fnexc") pr.set_from_function([&c]() -> T { EV("\"e\":\"fn\""); throw Boom{c.pval}; });
    else if (c.pkind == "broken") { ResultPromise<T> q(std::move(pr)); }
    else if (c.pkind == "made") { if constexpr (std::is_void_v<T>) res = result::make_ready<T>(); else res = result::make_ready<T>(val::mk<T>(c.pval)); }
    else if (c.pkind == "madeexc") res = result::make_exceptional<T>(Boom{c.pval});
    else pr = ResultPromise<T>();
  };
  auto producer = [&] {
    if (c.pdelay) std::this_thread::sleep_for(std::chrono::milliseconds(c.pdelay));
    EV("\"e\":\"pcall\"");
    if (c.by_move) { ResultPromise<T> q(std::move(pr)); pr = std::move(q); }
    publish();
    EV("\"e\":\"pret\"");
  };
  auto consumer = [&] {
    if (c.cdelay) std::this_thread::sleep_for(std::chrono::milliseconds(c.cdelay));
    for (auto &o : c.cops) {
      if (o.op == "await" || o.op == "resolve") {
        if (!res) continue;
        await_it<T>(std::move(res), o.op == "resolve");
        continue;
      }
      EV("\"e\":\"call\",\"l\":\"d\",\"op\":\"%s\",\"a\":%d", o.op.c_str(), o.arg);
      std::string r;
      int64_t t0 = vs::now_ns();
      if (o.op == "drop") { res = Result<T>(); r = "ok"; }
      else if (!res) {
        try { if (o.op == "get") res.get(); else res.status(); r = "noerror"; } catch (const std::exception &) { r = "empty"; }
      }
      else if (o.op == "status") r = stname(res.status());
      else if (o.op == "wait") { res.wait(); r = "ok"; }
      else if (o.op == "wait_for") r = stname(res.wait_for(std::chrono::milliseconds(o.arg)));
      else if (o.op == "wait_until") r = stname(res.wait_until(std::chrono::steady_clock::now() + std::chrono::milliseconds(o.arg)));
      else if (o.op == "get") r = val::got<T>([&]() -> decltype(auto) { return res.get(); });
      EV("\"e\":\"ret\",\"l\":\"d\",\"op\":\"%s\",\"r\":\"%s\",\"d\":%d", o.op.c_str(), r.c_str(), r == "idle" ? (int)((vs::now_ns() - t0) / 1000000) : 0);
    }
  };
  if (c.pkind[0] == 'm' && c.pkind[1] == 'a') { producer(); consumer(); }
  else if (c.crossed) {
    std::thread th(consumer);
    producer();
    th.join();
  } else {
    std::thread th(producer);
    consumer();
    th.join();
  }
}

static drv::Program make(uint64_t seed) {
  drv::Rng g(seed);
  Ctx c;
  static const char *pk[] = {"val", "exc", "fnval", "fnexc", "broken", "moved_broken", "made", "madeexc"};
  c.pkind = pk[g.below(8)];
  c.ty = g.below(4);
  c.bad = g.chance(1, 8);
  c.pval = g.range(1, 9);
  c.pdelay = g.chance(1, 2) ? 0 : g.range(1, 8);
  c.by_move = g.chance(1, 3);
  c.cdelay = g.chance(2, 3) ? 0 : g.range(1, 8);
  c.crossed = g.chance(1, 2);
  int n = g.range(0, 3);
  for (int i = 0; i < n; ++i) {
    switch (g.below(4)) {
      case 0: c.cops.push_back({"status", 0}); break;
      case 1: c.cops.push_back({"wait", 0}); break;
      case 2: c.cops.push_back({"wait_for", g.range(0, 6)}); break;
      case 3: c.cops.push_back({"wait_until", g.range(0, 6)}); break;
    }
  }
  static const char *term[] = {"get", "get", "await", "await", "resolve", "drop"};
  c.cops.push_back({term[g.below(6)], 0});
  if (g.chance(1, 3)) c.cops.push_back({g.chance(1, 2) ? "get" : "status", 0});
  drv::Program p;
  char b[200];
  std::string out = c.pkind == "val" || c.pkind == "fnval" || c.pkind == "made" ? val::sval(c.ty == 1 ? 0 : c.pval)
                  : c.pkind == "exc" || c.pkind == "fnexc" || c.pkind == "madeexc" ? "exc" + std::to_string(c.pval) : "broken";
  snprintf(b, sizeof b, "{\"out\":{\"s\":\"%s\",\"st\":\"%s\"}}", out.c_str(), out[0] == 'v' ? "value" : "exception");
  p.scn = b;
  p.opt.early_timeout = g.chance(1, 3) ? 0.02 : 0;
  p.opt.spurious = g.chance(1, 4) ? 0.2 : 0;
  p.body = [c] {
    val::with(c.ty, [&](auto t) { body<typename decltype(t)::type>(c); });
    EV("\"e\":\"live\",\"n\":%d", val::live.load());
  };
  return p;
}

int main(int argc, char **argv) { return drv::run(argc, argv, {{"result", make}}); }
