// Packets and the codecs that turn them into bytes on a stream and back.
#include "driver.h"
#include "plain/net/packet/basic.h"
#include "plain/net/stream/basic.h"
#include "plain/net/stream/codec.h"
#include <bit>
namespace net = plain::net;
using bytes_t = plain::bytes_t;
using V = std::vector<unsigned char>;

static std::string runs(const V &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size();) {
    size_t j = i + 1;
    while (j < v.size() && v[i] < 251 && v[j] == (v[j - 1] + 1) % 251) ++j;
    s += (i ? "," : "") + ("[" + std::to_string(v[i]) + "," + std::to_string(j - i) + "]");
    i = j;
  }
  return s + "]";
}
static std::string list(const V &v) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); ++i) s += (i ? "," : "") + std::to_string((int)v[i]);
  return s + "]";
}
static V vec(plain::const_byte_span_t b) { V v(b.size()); if (b.size()) memcpy(v.data(), b.data(), b.size()); return v; }
static V vec(const bytes_t &b) { V v(b.size()); if (b.size()) memcpy(v.data(), b.data(), b.size()); return v; }
static const std::byte *bp(const V &v) { return reinterpret_cast<const std::byte *>(v.data()); }
static const char *tf(bool b) { return b ? "true" : "false"; }

// ---------------------------------------------------------------- packet
struct POp { int op, k; V v; };
static drv::Program make_packet(uint64_t seed) {
  drv::Rng g(seed);
  auto P = std::make_shared<std::vector<POp>>();
  auto rb = [&](int n) { V v; for (int i = 0; i < n; ++i) v.push_back(g.chance(1, 3) ? g.pick(std::vector<int>{0, 1, 10, 127, 128, 255}) : g.below(256)); return v; };
  // writes first, then reads that mostly follow the writes
  std::vector<POp> W, R;
  int n = g.range(1, 7);
  bool large = g.chance(1, 300);      // more than two bytes can count
  for (int i = 0; i < n; ++i) {
    POp o;
    o.op = g.below(4);       // 0 number 1 string 2 bytes 3 raw
    o.k = g.below(10);
    o.v = rb(o.op == 0 ? 8 : g.chance(1, 5) ? 0 : g.chance(1, 8) ? g.range(40, 300) : g.range(1, 9));
    if (large && i == 0) { o.op = g.pick(std::vector<int>{1, 2, 3, 3, 3}); o.v = rb(g.range(65530, 65600)); }
    W.push_back(o);
    POp r = o;
    r.op = 10 + o.op;
    if (o.op == 3 && o.v.empty()) continue;
    if (g.chance(1, 12)) { r.op = 10 + g.below(5); r.k = g.below(10); if (r.op == 13 || r.op == 14) r.v = rb(g.range(1, 12)); }
    R.push_back(r);
  }
  if (g.chance(1, 6)) R.push_back({10 + g.below(4), (int)g.below(10), rb(3)});
  if (g.chance(1, 5)) W.insert(W.begin() + g.below((int)W.size() + 1), {20, 1, {}});   // writing off for a while
  if (g.chance(1, 5)) W.push_back({20, 0, {}});
  for (int i = g.below(3); i--;) W.insert(W.begin() + g.below((int)W.size() + 1), {21, (int)g.below(6), {}});
  if (g.chance(1, 8)) R.insert(R.begin(), {20, 2, {}});
  if (g.chance(1, 6)) R.insert(R.begin() + g.below((int)R.size() + 1), {22, 0, rb(g.range(1, 9))});
  P->push_back({20, g.chance(9, 10) ? 3 : 1, {}});
  for (auto &o : W) { P->push_back(o); if (o.op == 20 && o.k == 1) P->push_back({20, 3, {}}); }
  if (g.chance(1, 2)) P->push_back({20, 0, {}});
  P->push_back({20, 4, {}});
  for (auto &o : R) P->push_back(o);
  drv::Program p;
  p.scn = "{\"mode\":\"packet\"}";
  p.body = [P] {
    net::packet::Basic p;
    auto st = [&] { EV("\"e\":\"st\",\"size\":%d,\"off\":%d,\"rq\":%s,\"rs\":%s,\"nt\":%s,\"id\":%d", (int)p.data().size(), (int)p.offset(), tf(p.is_call_request()), tf(p.is_call_response()), tf(p.is_call_notify()), (int)p.id()); };
    for (auto &o : *P) {
      switch (o.op) {
        case 0: {   // numbers
          static const int w[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
          uint64_t x = 0;
          for (int i = 0; i < w[o.k]; ++i) x = x << 8 | o.v[i];
          size_t a = p.data().size();
          switch (o.k) {
            case 0: p << (uint8_t)x; break; case 1: p << (int8_t)x; break; case 2: p << (uint16_t)x; break; case 3: p << (int16_t)x; break;
            case 4: p << (uint32_t)x; break; case 5: p << (int32_t)x; break; case 6: p << (uint64_t)x; break; case 7: p << (int64_t)x; break;
            case 8: { uint32_t y = (uint32_t)x & 0xbf7fffffu; for (int i = 0; i < 4; ++i) o.v[i] = y >> (24 - 8 * i); p << std::bit_cast<float>(y); break; }
            case 9: { uint64_t y = x & 0xbfefffffffffffffull; for (int i = 0; i < 8; ++i) o.v[i] = y >> (56 - 8 * i); p << std::bit_cast<double>(y); break; }
          }
          EV("\"e\":\"put\",\"k\":\"raw\",\"v\":%s,\"r\":%d", list(V(o.v.begin(), o.v.begin() + w[o.k])).c_str(), (int)(p.data().size() - a));
          break;
        }
        case 1: case 2: {
          size_t r; std::string s((const char *)o.v.data(), o.v.size());
          size_t a = p.data().size();
          if (o.op == 1) { if (o.k % 3 == 0) r = p.write(std::string_view(s)); else if (o.k % 3 == 1 && s.find('\0') == std::string::npos) { p << s.c_str(); r = s.size(); } else { p << s; r = s.size(); } }
          else { if (o.k % 2) r = p.write(bytes_t(bp(o.v), o.v.size())); else { p << bytes_t(bp(o.v), o.v.size()); r = o.v.size(); } }
          if (p.data().size() == a) r = 0;
          EV("\"e\":\"put\",\"k\":\"str\",\"v\":%s,\"r\":%d", list(o.v).c_str(), (int)r);
          break;
        }
        case 3: {
          size_t r;
          if (o.k % 3 == 0) r = p.write(bp(o.v), o.v.size());
          else if (o.k % 3 == 1) r = p.write(plain::const_byte_span_t(bp(o.v), o.v.size()));
          else { size_t a = p.data().size(); p << std::vector<uint8_t>(o.v.begin(), o.v.end()); r = p.data().size() - a; }
          EV("\"e\":\"put\",\"k\":\"raw\",\"v\":%s,\"r\":%d", list(o.v).c_str(), (int)r);
          break;
        }
        case 10: {
          static const int w[] = {1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
          uint64_t x = 0; size_t a = p.offset();
          switch (o.k) {
            case 0: { uint8_t y = 9; p >> y; x = y; break; } case 1: { int8_t y = 9; p >> y; x = (uint8_t)y; break; }
            case 2: { uint16_t y = 9; p >> y; x = y; break; } case 3: { int16_t y = 9; p >> y; x = (uint16_t)y; break; }
            case 4: { uint32_t y = 9; p >> y; x = y; break; } case 5: { int32_t y = 9; p >> y; x = (uint32_t)y; break; }
            case 6: { uint64_t y = 9; p >> y; x = y; break; } case 7: { int64_t y = 9; p >> y; x = (uint64_t)y; break; }
            case 8: { float y = 9; p >> y; x = std::bit_cast<uint32_t>(y); break; } case 9: { double y = 9; p >> y; x = std::bit_cast<uint64_t>(y); break; }
          }
          V v; for (int i = w[o.k] - 1; i >= 0; --i) v.push_back(x >> (8 * i));
          EV("\"e\":\"num\",\"n\":%d,\"r\":%d,\"v\":%s", w[o.k], (int)(p.offset() - a), list(v).c_str());
          break;
        }
        case 11: case 12: {
          V v; size_t r, a = p.offset();
          // sometimes into one that holds something already
          std::string was = o.k / 2 % 3 == 2 ? "[kept]" : "";
          if (o.op == 11) { std::string s = was; if (o.k % 2) { p >> s; r = s.size(); } else r = p.read(s); v.assign(s.begin(), s.end()); }
          else { bytes_t b{reinterpret_cast<const std::byte *>(was.data()), was.size()}; if (o.k % 2) { p >> b; r = b.size(); } else r = p.read(b); v = vec(b); }
          if (!was.empty()) {
            if (v.size() >= 6 && std::equal(was.begin(), was.end(), v.begin())) v.erase(v.begin(), v.begin() + 6);
            else if (v.size() >= 6 && std::equal(was.begin(), was.end(), v.end() - 6)) v.resize(v.size() - 6);
            r = v.size();
          }
          EV("\"e\":\"str\",\"r\":%d,\"d\":%d,\"v\":%s", (int)r, (int)(p.offset() - a), list(v).c_str());
          break;
        }
        case 13: case 14: {
          V v(o.v.size(), 7); size_t r = p.read((std::byte *)v.data(), v.size()); v.resize(r <= v.size() ? r : 0);
          EV("\"e\":\"raw\",\"n\":%d,\"r\":%d,\"v\":%s", (int)o.v.size(), (int)r, list(v).c_str());
          break;
        }
        case 20: {
          if (o.k == 3 || o.k <= 1) p.set_writeable(o.k == 3); else p.set_readable(o.k == 4);
          EV("\"e\":\"flag\",\"f\":\"%s\",\"on\":%s", (o.k == 3 || o.k <= 1) ? "w" : "r", tf(o.k >= 3));
          break;
        }
        case 21: {
          bool on = o.k % 2; int w = o.k / 2;
          if (w == 0) p.set_call_request(on); else if (w == 1) p.set_call_response(on); else p.set_call_notify(on);
          EV("\"e\":\"flag\",\"f\":\"%s\",\"on\":%s", w == 0 ? "rq" : w == 1 ? "rs" : "nt", tf(on));
          break;
        }
        case 22: { size_t r = p.remove(o.v.size()); EV("\"e\":\"rm\",\"n\":%d,\"r\":%d", (int)o.v.size(), (int)r); break; }
      }
      st();
    }
    p.set_id(1234);
    EV("\"e\":\"id\",\"id\":1234"); st();
    EV("\"e\":\"data\",\"v\":%s", list(vec(p.data())).c_str());
  };
  return p;
}

// ---------------------------------------------------------------- codecs
struct COp { int op, id, from, n, flag; V v; };
template <class D> static void run_codec(const std::vector<COp> &ops, bool line, const net::packet::limit_t &lim, D decode) {
  net::stream::Basic s(nullptr);
  V wire;                     // encoded, not yet in the stream
  auto dec = [&] {
    auto r = decode(&s, lim);
    auto *e = plain::get_error(r);
    if (e) {
      const char *k = e->is_code(plain::ErrorCode::NetPacketCantFill) ? "fill" : e->is_code(plain::ErrorCode::NetPacketNeedRecv) ? "need" : e->is_code(plain::ErrorCode::NetPacketInvalid) ? "bad" : "err";
      EV("\"e\":\"dec\",\"r\":\"%s\",\"left\":%d,\"id\":0,\"v\":[],\"kind\":\"\",\"rd\":true", k, (int)s.size());
      return false;
    }
    auto p = std::get<std::shared_ptr<net::packet::Basic>>(r);
    std::string kind = p->is_call_request() ? "rq" : ""; if (p->is_call_response()) kind += "rs"; if (p->is_call_notify()) kind += "nt";
    V d = vec(p->data());
    unsigned char c = 0;
    bool rd = p->offset() == 0 && (d.empty() || (p->read((std::byte *)&c, 1) == 1 && c == d[0])) && p->write((const std::byte *)"x", 1) == 0;
    EV("\"e\":\"dec\",\"r\":\"ok\",\"left\":%d,\"id\":%d,\"v\":%s,\"kind\":\"%s\",\"rd\":%s", (int)s.size(), line ? 0 : (int)p->id(), line ? list(d).c_str() : runs(d).c_str(), kind.c_str(), tf(rd));
    return true;
  };
  for (auto &o : ops) {
    if (o.op == 0) {          // encode
      auto p = std::make_shared<net::packet::Basic>();
      p->set_writeable(true);
      p->set_id(o.id);
      if (o.flag == 1) p->set_call_request(true); else if (o.flag == 2) p->set_call_response(true); else if (o.flag == 3) p->set_call_notify(true);
      V v = o.v;
      if (!line) { v.resize(o.n); for (int i = 0; i < o.n; ++i) v[i] = (o.from + i) % 251; }
      p->write(bp(v), v.size());
      V b = vec(line ? net::stream::line_encode(p) : net::stream::encode(p));
      if (line) EV("\"e\":\"enc\",\"kind\":\"%s\",\"p\":%s,\"v\":%s", o.flag == 1 ? "rq" : o.flag == 2 ? "rs" : o.flag == 3 ? "nt" : "", list(v).c_str(), list(b).c_str());
      else EV("\"e\":\"enc\",\"id\":%d,\"from\":%d,\"n\":%d,\"v\":%s", o.id, o.from, o.n, runs(b).c_str());
      wire.insert(wire.end(), b.begin(), b.end());
    } else if (o.op == 1) {   // raw bytes
      EV("\"e\":\"raw\",\"v\":%s", line ? list(o.v).c_str() : runs(o.v).c_str());
      wire.insert(wire.end(), o.v.begin(), o.v.end());
    } else if (o.op == 2) {   // some of the wire arrives
      int n = std::min<int>(o.n, wire.size());
      V v(wire.begin(), wire.begin() + n);
      s.write(plain::const_byte_span_t(bp(v), v.size()));
      wire.erase(wire.begin(), wire.begin() + n);
      EV("\"e\":\"feed\",\"n\":%d", n);
    } else dec();
  }
  while (!wire.empty()) {
    V v = wire;
    s.write(plain::const_byte_span_t(bp(v), v.size()));
    EV("\"e\":\"feed\",\"n\":%d", (int)v.size());
    wire.clear();
  }
  for (int i = 0; i < 12 && dec(); ++i);
}
static drv::Program make_codec(uint64_t seed) {
  drv::Rng g(seed);
  auto P = std::make_shared<std::vector<COp>>();
  net::packet::limit_t lim;
  int style = g.below(4);
  if (style == 1) { lim.max_id = g.range(1, 300); lim.max_length = g.range(1, 200); }
  if (style == 2) lim.max_length = g.range(300, 3000);
  int n = g.range(2, 14), from = g.below(251);
  bool small = g.chance(1, 2);
  for (int i = 0; i < n; ++i) {
    COp o{};
    o.op = g.chance(1, 25) ? 1 : g.pick(std::vector<int>{0, 0, 0, 2, 2, 2, 3, 3, 3, 3});
    o.id = g.chance(1, 8) ? g.pick(std::vector<int>{0, 65535, 65534, 65533, 65532, 65531, 256, 255}) : g.chance(1, 2) ? g.range(1, 60000) : (int)std::min<uint32_t>(g.range(1, 300), lim.max_id);
    uint32_t cap = std::min<uint32_t>(lim.max_length, small ? 40 : 1500);
    o.n = g.chance(1, 8) ? 0 : g.chance(1, 10) ? g.range(1, small ? 90 : 4000) : g.range(1, (int)cap);
    if (o.op == 0 && g.chance(1, 10)) o.n = lim.max_length < 5000 ? (int)lim.max_length + g.range(-1, 1) : o.n;
    if (o.op == 2) o.n = g.chance(1, 3) ? g.range(1, 9) : g.range(1, small ? 90 : 5000);
    if (o.op == 0 && lim.max_length > 100000 && g.chance(1, 30)) o.n = g.range(65530, 140000);
    if (o.op == 2 && g.chance(1, 8)) o.n = 200000;
    o.from = from;
    from = (from + o.n) % 251;
    if (o.op == 1) for (int k = g.range(1, 9); k--;) o.v.push_back(g.below(256));
    P->push_back(o);
  }
  drv::Program p;
  p.scn = "{\"maxid\":" + std::to_string(lim.max_id) + ",\"maxlen\":" + std::to_string(lim.max_length) + "}";
  p.body = [P, lim] { run_codec(*P, false, lim, [](auto *s, auto &l) { return net::stream::decode(s, l); }); };
  return p;
}
static drv::Program make_line(uint64_t seed) {
  drv::Rng g(seed);
  auto P = std::make_shared<std::vector<COp>>();
  net::packet::limit_t lim;
  lim.max_length = g.chance(1, 2) ? g.range(8, 40) : 200;
  int n = g.range(2, 14);
  auto text = [&](int k) { V v; for (int i = 0; i < k; ++i) { int c = g.chance(1, 6) ? g.pick(std::vector<int>{13, 'c', 'r', 'o', 'n', 0, 255, 11}) : g.below(256); v.push_back(c == 10 ? 12 : c); } return v; };
  for (int i = 0; i < n; ++i) {
    COp o{};
    o.op = g.chance(1, 12) ? 1 : g.pick(std::vector<int>{0, 0, 0, 2, 2, 2, 3, 3, 3, 3});
    o.flag = g.chance(1, 2) ? 0 : g.range(1, 3);
    if (o.op == 0) {
      int lo = o.flag == 1 ? 5 : o.flag == 2 ? 9 : 1;
      o.v = text(o.flag ? g.range(lo, 30) : g.chance(1, 6) ? 0 : g.chance(1, 6) ? g.range(20, 60) : g.range(1, 12));
      if (!o.flag && g.chance(1, 8)) { V a = {99, (unsigned char)g.pick(std::vector<int>{'r', 'o', 'n'})}; V b = {a[1], 99}; V m = text(g.range(0, 10)); a.insert(a.end(), m.begin(), m.end()); a.insert(a.end(), b.begin(), b.end()); o.v = a; }
    }
    if (o.op == 1) { o.v = text(g.range(0, 8)); for (int k = g.below(3); k--;) { if (g.chance(1, 2)) o.v.push_back(13); o.v.push_back(10); } }
    o.n = g.chance(1, 3) ? g.range(1, 4) : g.range(1, 60);
    P->push_back(o);
  }
  drv::Program p;
  p.scn = "{\"maxlen\":" + std::to_string(lim.max_length) + "}";
  p.body = [P, lim] { run_codec(*P, true, lim, [](auto *s, auto &l) { return net::stream::line_decode(s, l); }); };
  return p;
}
int main(int argc, char **argv) { return drv::run(argc, argv, {{"packet", make_packet}, {"codec", make_codec}, {"line", make_line}}); }
