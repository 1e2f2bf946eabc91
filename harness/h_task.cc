// Task objects holding callables of every size and kind.
#include "driver.h"
#include <array>
#include <memory>
#include <optional>
#include "plain/concurrency/task.h"
#include "plain/concurrency/executor/inline.h"
using plain::concurrency::Task;
namespace {
struct Tok {                     // says when the last owner goes
  int k;
  explicit Tok(int k) : k(k) {}
  Tok(Tok &&o) noexcept : k(std::exchange(o.k, 0)) {}
  Tok &operator=(Tok &&) = delete;
  ~Tok() { if (k) EV("\"e\":\"die\",\"k\":%d", k); }
};
struct Thr {                     // may throw when moved: never kept inside the object
  Tok t;
  explicit Thr(int k) : t(k) {}
  Thr(Thr &&o) noexcept(false) : t(std::move(o.t)) {}
  void operator()() { EV("\"e\":\"run\",\"k\":%d", t.k); }
};
template <size_t N> struct Sized {
  Tok t; std::array<unsigned char, N> pad;
  explicit Sized(int k) : t(k) { for (size_t i = 0; i < N; ++i) pad[i] = (unsigned char)(k * 7 + i); }
  Sized(Sized &&) noexcept = default;
  void operator()() {
    bool ok = true;
    for (size_t i = 0; i < N; ++i) ok = ok && pad[i] == (unsigned char)(t.k * 7 + i);
    EV("\"e\":\"run\",\"k\":%d", ok ? t.k : -1);
  }
};
struct Co {                      // a coroutine that is to be resumed
  struct promise_type {
    Co get_return_object() { return {plain::concurrency::coroutine_handle<promise_type>::from_promise(*this)}; }
    std::suspend_always initial_suspend() noexcept { return {}; }
    std::suspend_never final_suspend() noexcept { return {}; }
    void return_void() {}
    void unhandled_exception() {}
  };
  plain::concurrency::coroutine_handle<promise_type> h;
};
Co co(Tok t) { EV("\"e\":\"run\",\"k\":%d", t.k); co_return; }

Task make(int kind, int k) {
  switch (kind) {
    case 0: return Task([k] { EV("\"e\":\"run\",\"k\":%d", k); });
    case 1: return Task([k, a = std::array<int, 12>{k, k + 1, k + 2}] { EV("\"e\":\"run\",\"k\":%d", a[2] == k + 2 ? k : -1); });
    case 2: return Task([k, a = std::array<int, 40>{k, k + 1, k + 2}] { EV("\"e\":\"run\",\"k\":%d", a[1] == k + 1 ? k : -1); });
    case 3: return Task(Sized<1>(k));
    case 4: return Task(Sized<52>(k));      // just fits
    case 5: return Task(Sized<53>(k));      // just does not
    case 6: return Task(Sized<400>(k));
    case 7: return Task(Thr(k));
    case 8: return Task([p = std::make_shared<Tok>(k), k] { EV("\"e\":\"run\",\"k\":%d", k); });
    default: return Task(plain::concurrency::coroutine_handle<void>(co(Tok(k)).h));
  }
}
struct Op { const char *op; int a, b, k; };
struct P { std::vector<int> kind; std::vector<Op> ops; };
} // namespace
static drv::Program task(uint64_t seed) {
  drv::Rng g(seed);
  auto p = std::make_shared<P>();
  p->kind.push_back(0);
  int m = g.range(2, 20);
  for (int i = 0; i < m; ++i) {
    static const char *names[] = {"put", "put", "put", "move", "move", "through", "swap", "clear", "run", "run", "holds"};
    Op o{names[g.below(11)], g.range(1, 4), g.range(1, 4), 0};
    if (o.op == names[0]) { o.k = (int)p->kind.size(); p->kind.push_back(g.below(10)); }
    if (std::string(o.op) == "swap" && o.a == o.b) o.b = o.a % 4 + 1;
    p->ops.push_back(o);
  }
  p->ops.push_back({"over", 1, 1, 0});
  drv::Program q;
  std::string s;
  for (size_t k = 1; k < p->kind.size(); ++k) if (p->kind[k] <= 2) s += (s.empty() ? "" : ",") + std::to_string(k);
  q.scn = "{\"plain\":[" + s + "]}";
  q.body = [p] {
    std::optional<std::array<Task, 4>> t(std::in_place);
    for (auto &o : p->ops) {
      std::string op = o.op, r = "ok";
      EV("\"e\":\"call\",\"op\":\"%s\",\"a\":%d,\"b\":%d,\"k\":%d", o.op, o.a, o.b, o.k);
      if (op == "over") { for (auto &x : *t) { Task y(std::move(x)); } t.reset(); }
      else {
        Task &a = (*t)[o.a - 1], &b = (*t)[o.b - 1];
        if (op == "put") a = make(p->kind[o.k], o.k);
        else if (op == "move") a = std::move(b);
        else if (op == "through") { Task x(std::move(a)); Task y(std::move(x)); if (x) r = "kept"; a = std::move(y); }
        else if (op == "swap") std::swap(a, b);
        else if (op == "clear") a.clear();
        else if (op == "run") a();
        else r = static_cast<bool>(a) ? "yes" : "no";
      }
      EV("\"e\":\"ret\",\"r\":\"%s\"", r.c_str());
    }
  };
  return q;
}
int main(int argc, char **argv) { return drv::run(argc, argv, {{"task", task}}); }
