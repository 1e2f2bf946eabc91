// Ring buffers and streams as byte queues: seeded scripts of operations.
//   ring   FixedRing / DynamicRing of ints, one thread
//   spsc   FixedRing of ints, one producer and one consumer thread
//   stream stream::Basic between local operations and a socket pair
#include "driver.h"
#include "plain/basic/ring.h"
#include "plain/net/stream/basic.h"
#include "plain/net/socket/basic.h"
#include "plain/net/socket/api.h"
#include <sys/socket.h>
#include <fcntl.h>
#include <thread>
#include <unistd.h>
namespace net = plain::net;

static std::string ints(const std::vector<int> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "]";
}
// ---------------------------------------------------------------- ring
struct ROp { int op, n; bool f; };
template <class R> static void ring_body(const std::vector<ROp> &ops) {
  R r;
  int next = 1;
  auto st = [&] { EV("\"e\":\"st\",\"len\":%d,\"room\":%d,\"size\":%d,\"empty\":%s,\"full\":%s", (int)r.read_avail(), (int)r.write_avail(), (int)r.size(),
                     r.empty() ? "true" : "false", r.full() ? "true" : "false"); };
  st();
  for (auto &o : ops) {
    std::vector<int> v;
    switch (o.op) {
      case 0: { int x = next; bool k = o.f ? r.insert(x) : r.insert(&x); next += k; EV("\"e\":\"ins\",\"r\":%d", k); break; }
      case 1: { int x = 0; bool k = o.f ? r.remove(x) : r.remove(&x); if (k) v.push_back(x); EV("\"e\":\"read\",\"n\":1,\"r\":%d,\"v\":%s,\"ro\":false", k, ints(v).c_str()); break; }
      case 2: { int k = (int)r.remove((std::size_t)o.n); EV("\"e\":\"rm\",\"n\":%d,\"r\":%d", o.n, k); break; }
      case 3: { for (int i = 0; i < o.n; ++i) v.push_back(next + i); int k = (int)r.write(v.data(), v.size(), o.f); next += k;
                EV("\"e\":\"write\",\"n\":%d,\"full\":%s,\"r\":%d", o.n, o.f ? "true" : "false", k); break; }
      case 4: { std::vector<int> b(o.n, -7); int k = (int)r.read(b.data(), b.size(), o.f); b.resize(k > o.n ? 0 : k);
                EV("\"e\":\"read\",\"n\":%d,\"r\":%d,\"v\":%s,\"ro\":%s", o.n, k, ints(b).c_str(), o.f ? "true" : "false"); break; }
      case 5: { int *p = r.peek(o.n); EV("\"e\":\"peek\",\"n\":%d,\"ok\":%s,\"v\":%d", o.n, p ? "true" : "false", p && r.read_avail() ? *p : 0); break; }
      case 6: { int *p = r.at(o.n); EV("\"e\":\"at\",\"n\":%d,\"ok\":%s,\"v\":%d", o.n, p ? "true" : "false", p ? *p : 0); break; }
      case 7: { int a = (int)r.read_avail(); if (o.n < a) EV("\"e\":\"at\",\"n\":%d,\"ok\":true,\"v\":%d", o.n, r[o.n]); break; }
      case 8: { if (o.f) r.clear(); else if (o.n % 2) r.consumer_clear(); else r.producer_clear(); EV("\"e\":\"clear\",\"hard\":%s", o.f ? "true" : "false"); break; }
    }
    st();
  }
}
static drv::Program make_ring(uint64_t seed) {
  drv::Rng g(seed);
  int kind = g.below(4);     // fixed 8, fixed 1, dynamic 4, dynamic 16
  int cap = kind == 0 ? 8 : kind == 1 ? 1 : kind == 2 ? 4 : 16;
  auto P = std::make_shared<std::vector<ROp>>();
  int n = g.range(4, 26);
  int bias = g.below(3);
  for (int i = 0; i < n; ++i) {
    ROp o;
    static const std::vector<int> w = {0, 0, 1, 1, 2, 3, 3, 3, 4, 4, 4, 5, 6, 7};
    o.op = g.chance(1, 40) ? 8 : g.pick(w);
    if (bias == 1 && g.chance(1, 3)) o.op = 3;
    o.n = g.chance(1, 8) ? g.range(0, 3 * cap + 5) : g.range(0, cap < 8 ? 5 : 7);
    o.f = g.chance(1, 3);
    P->push_back(o);
  }
  drv::Program p;
  p.scn = "{\"cap\":" + std::to_string(cap) + ",\"dyn\":" + (kind >= 2 ? "true" : "false") + "}";
  p.body = [P, kind] {
    if (kind == 0) ring_body<plain::FixedRing<int, 8>>(*P);
    else if (kind == 1) ring_body<plain::FixedRing<int, 1>>(*P);
    else if (kind == 2) ring_body<plain::DynamicRing<int, 4>>(*P);
    else ring_body<plain::DynamicRing<int, 16>>(*P);
  };
  return p;
}
static drv::Program make_spsc(uint64_t seed) {
  drv::Rng g(seed);
  struct O { bool bulk, full; int n; };
  auto A = std::make_shared<std::vector<O>>(), B = std::make_shared<std::vector<O>>();
  for (int i = g.range(1, 5); i--;) A->push_back({g.chance(1, 2), g.chance(1, 4), g.range(1, 5)});
  for (int i = g.range(1, 5); i--;) B->push_back({g.chance(2, 3), g.chance(1, 4), g.range(1, 5)});
  int pre = g.below(3);
  drv::Program p;
  p.scn = "{\"cap\":4}";
  p.body = [A, B, pre] {
    plain::FixedRing<int, 4> r;
    int next = 1;
    auto prod = [&](const O &o) {
      std::vector<int> v;
      for (int i = 0; i < (o.bulk ? o.n : 1); ++i) v.push_back(next + i);
      EV("\"e\":\"call\",\"t\":1,\"op\":\"write\",\"n\":%d,\"full\":%s,\"ro\":false", (int)v.size(), o.full || !o.bulk ? "true" : "false");
      int k = o.bulk ? (int)r.write(v.data(), v.size(), o.full) : r.insert(v[0]);
      next += k;
      EV("\"e\":\"ret\",\"t\":1,\"r\":%d,\"v\":[]", k);
    };
    auto cons = [&](const O &o) {
      int n = o.bulk ? o.n : 1;
      std::vector<int> v(n, -7);
      EV("\"e\":\"call\",\"t\":2,\"op\":\"read\",\"n\":%d,\"full\":false,\"ro\":%s", n, o.bulk && o.full ? "true" : "false");
      int k = o.bulk ? (int)r.read(v.data(), v.size(), o.full) : r.remove(v[0]);
      v.resize(k > n ? 0 : k);
      EV("\"e\":\"ret\",\"t\":2,\"r\":%d,\"v\":%s", k, ints(v).c_str());
    };
    for (int i = 0; i < pre; ++i) prod({false, false, 1});
    std::thread a([&] { for (auto &o : *A) prod(o); });
    std::thread b([&] { for (auto &o : *B) cons(o); });
    a.join(); b.join();
    for (int i = 0; i < 3; ++i) cons({true, false, 4});
  };
  return p;
}
// ---------------------------------------------------------------- stream
static std::string runs(const std::vector<unsigned char> &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size();) {
    size_t j = i + 1;
    while (j < v.size() && v[j] == (v[j - 1] + 1) % 251) ++j;
    s += (i ? "," : "") + ("[" + std::to_string(v[i]) + "," + std::to_string(j - i) + "]");
    i = j;
  }
  return s + "]";
}
struct SOp { int op, n, k; };
static drv::Program make_stream(uint64_t seed) {
  drv::Rng g(seed);
  auto P = std::make_shared<std::vector<SOp>>();
  int n = g.range(3, 24), scale = g.below(4), theme = g.below(4);
  bool small = g.chance(1, 3);
  for (int i = 0; i < n; ++i) {
    SOp o;
    // 0 write 1 read 2 peek 3 remove 4 put int 5 get int 6 size 7 clear 8 peer send 9 pull 10 push 11 peer recv 12 peer close
    static const std::vector<int> local = {0, 0, 0, 1, 1, 2, 3, 4, 4, 5, 5, 6};
    static const std::vector<int> in = {8, 8, 9, 9, 9, 1, 1, 2, 3, 5};
    static const std::vector<int> out = {0, 0, 0, 4, 10, 10, 10, 11, 11};
    o.op = g.chance(1, 50) ? 7 : g.chance(1, 30) ? 12 : g.pick(theme == 0 ? local : theme == 1 ? in : theme == 2 ? out : g.chance(1, 3) ? local : g.chance(1, 2) ? in : out);
    o.k = g.below(4);
    int big = scale == 0 ? 20 : scale == 1 ? 140 : scale == 2 ? 700 : 30000;
    o.n = g.chance(1, 12) ? g.range(0, 2) : g.chance(1, 4) ? g.range(1, big) : g.range(1, big / 4 + 1);
    if (small && o.op == 0 && g.chance(1, 3)) o.n = g.range(1000, 60000);
    P->push_back(o);
  }
  drv::Program p;
  p.scn = "{\"small\":" + std::string(small ? "true" : "false") + "}";
  p.body = [P, small] {
    int fd[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) _exit(3);
    for (int f : fd) fcntl(f, F_SETFL, fcntl(f, F_GETFL) | O_NONBLOCK);
    if (small) { int b = 2304; setsockopt(fd[0], SOL_SOCKET, SO_SNDBUF, &b, sizeof b); }
    auto sock = std::make_shared<net::socket::Basic>(fd[0]);
    net::stream::Basic s(sock);
    unsigned c = 0, pc = 100;
    bool open = true;
    auto gen = [](unsigned &c, size_t n) { std::vector<unsigned char> v(n); for (auto &x : v) { x = c; c = (c + 1) % 251; } return v; };
    for (auto &o : *P) {
      switch (o.op) {
        case 0: {
          unsigned c0 = c;
          auto v = gen(c, o.n);
          auto *b = reinterpret_cast<const std::byte *>(v.data());
          size_t r = 0;
          if (o.k == 0) r = s.write(std::string_view((const char *)v.data(), v.size()));
          else if (o.k == 1) r = s.write(plain::bytes_t(b, v.size()));
          else if (o.k == 2) r = s.write(plain::const_byte_span_t(b, v.size()));
          else { auto a = s.size(); if (o.n % 2) s << std::string_view((const char *)v.data(), v.size()); else s << plain::bytes_t(b, v.size()); r = s.size() - a; }
          EV("\"e\":\"write\",\"n\":%d,\"r\":%d,\"from\":%u", o.n, (int)r, c0);
          break;
        }
        case 1: case 2: {
          std::vector<unsigned char> v(o.n, 255);
          auto *b = reinterpret_cast<std::byte *>(v.data());
          size_t r = 0;
          if (o.op == 2) r = s.peek(b, o.n);
          else if (o.k == 0) { std::string t(o.n, '\xff'); r = s.read(t); memcpy(v.data(), t.data(), std::min<size_t>(t.size(), o.n)); }
          else if (o.k == 1) { plain::bytes_t t(o.n, std::byte{255}); r = s.read(t); memcpy(v.data(), t.data(), std::min<size_t>(t.size(), o.n)); }
          else r = s.read(b, o.n);
          if ((int)r <= o.n) v.resize(r);
          EV("\"e\":\"%s\",\"n\":%d,\"r\":%d,\"v\":%s", o.op == 2 ? "peek" : "read", o.n, (int)r, runs(v).c_str());
          break;
        }
        case 3: EV("\"e\":\"rm\",\"n\":%d,\"r\":%d", o.n, (int)s.remove(o.n)); break;
        case 4: {   // the bytes on the wire of an integer are its digits, most significant first
          int w = 1 << o.k; unsigned c0 = c; auto v = gen(c, w); uint64_t x = 0;
          for (auto b : v) x = x << 8 | b;
          size_t a = s.size();
          if (o.k == 0) s << (uint8_t)x; else if (o.k == 1) s << (int16_t)x; else if (o.k == 2) s << (uint32_t)x; else s << (int64_t)x;
          EV("\"e\":\"write\",\"n\":%d,\"r\":%d,\"from\":%u", w, (int)(s.size() - a), c0);
          break;
        }
        case 5: {
          int w = 1 << o.k; uint64_t x = 0; size_t a = s.size();
          if ((int)a < w) { EV("\"e\":\"size\",\"n\":%d,\"empty\":%s", (int)s.size(), s.empty() ? "true" : "false"); break; }
          if (o.k == 0) { uint8_t y; s >> y; x = y; } else if (o.k == 1) { int16_t y; s >> y; x = (uint16_t)y; }
          else if (o.k == 2) { uint32_t y; s >> y; x = y; } else { int64_t y; s >> y; x = (uint64_t)y; }
          std::vector<unsigned char> v;
          for (int i = w - 1; i >= 0; --i) v.push_back(x >> (8 * i));
          EV("\"e\":\"read\",\"n\":%d,\"r\":%d,\"v\":%s", w, (int)(a - s.size()), runs(v).c_str());
          break;
        }
        case 6: EV("\"e\":\"size\",\"n\":%d,\"empty\":%s", (int)s.size(), s.empty() ? "true" : "false"); break;
        case 7: s.clear(); EV("\"e\":\"clear\""); break;
        case 8: {
          if (!open) break;
          unsigned c0 = pc, t = pc;
          auto v = gen(t, o.n);
          ssize_t r = ::send(fd[1], v.data(), v.size(), MSG_NOSIGNAL);
          if (r < 0) r = 0;
          pc = (pc + r) % 251;
          EV("\"e\":\"psend\",\"r\":%d,\"from\":%u", (int)r, c0);
          break;
        }
        case 9: { size_t a = s.size(); int r = s.pull(); EV("\"e\":\"pull\",\"r\":%d,\"d\":%d", r, (int)(s.size() - a)); break; }
        case 10: { size_t a = s.size(); int r = s.push(); EV("\"e\":\"push\",\"r\":%d,\"d\":%d", r, (int)(a - s.size())); break; }
        case 11: {
          if (!open) break;
          std::vector<unsigned char> v(o.n * 4 + 1);
          ssize_t r = ::recv(fd[1], v.data(), v.size(), 0);
          v.resize(r < 0 ? 0 : r);
          EV("\"e\":\"precv\",\"n\":%d,\"v\":%s", o.n * 4 + 1, runs(v).c_str());
          break;
        }
        case 12: if (open) { ::close(fd[1]); open = false; EV("\"e\":\"pclose\""); } break;
      }
    }
    EV("\"e\":\"size\",\"n\":%d,\"empty\":%s", (int)s.size(), s.empty() ? "true" : "false");
  };
  return p;
}
int main(int argc, char **argv) { return drv::run(argc, argv, {{"ring", make_ring}, {"spsc", make_spsc}, {"stream", make_stream}}); }
