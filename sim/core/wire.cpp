// Parser of the federated protocol over the bytes accepted by each connection.
#include "wire.h"
#include "net.h"
#include <cstring>
std::vector<WireEv> wire;
// header length including the type byte; 0: unknown, -1: not yet known
static int hlen(const std::string &b) {
  auto u8 = [&](size_t k) { return (int)(unsigned char)b[k]; };
  auto i32 = [&](size_t k) { int v; memcpy(&v, &b[k], 4); return v; };
  switch (u8(0)) {
  case W_REJECT: return 2;
  case W_FED_IDS: return b.size() < 4 ? -1 : 4 + u8(3);
  case 255: return 1;
  case 100: return 11; case 101: return 41; case 102: return 33;   // authentication
  case 254: return 3;
  case W_TIMESTAMP: case W_T1: case W_T4: case W_PROBE: return 9;
  case W_RESIGN: case W_FAILED: return 1;
  case W_MESSAGE: case W_P2P_MSG: return 9;
  case W_TAGGED: case W_P2P_TAGGED: return 21;
  case W_NET: case W_TAG: case W_PTAG: case W_LTC: case W_STOP_REQ: case W_STOP_REPLY: case W_STOP_GRANT: return 13;
  case W_ADDR_QUERY: return 3;
  case W_ADDR_REPLY: return 9;
  case W_ADDR_AD: return 5;
  case W_P2P_ID: return b.size() < 4 ? -1 : 4 + u8(3);
  case W_T3: return 5;
  case W_ABSENT: return 17;
  case W_NEIGH: return b.size() < 9 ? -1 : 9 + 10 * i32(1) + 2 * i32(5);
  }
  return 0;
}
void wire_feed(WireParse &p, int from, int to, const char *d, size_t n) {
  if (is_adv(from) || is_adv(to)) return;
  if (to == (int)C.get("nf")) adv_capture(from, d, n);
  if (p.bad) return;
  while (n) {
    if (p.skip) { size_t k = std::min(n, p.skip); p.skip -= k; d += k; n -= k; continue; }
    p.b += *d++; n--;
    int h = hlen(p.b);
    if (h == 0 || h > 100000) { p.bad = true; return; }
    if (h < 0 || p.b.size() < (size_t)h) continue;
    WireEv e{from, to, (unsigned char)p.b[0], {0, 0}, 0, 0, 0, ++gseq, now_ns};
    auto tag = [&](size_t k) { i64 t; u32 m; memcpy(&t, &p.b[k], 8); memcpy(&m, &p.b[k + 8], 4); e.tag = Tag{t, m}; };
    auto u16 = [&](size_t k) { uint16_t v; memcpy(&v, &p.b[k], 2); return (int)v; };
    switch (e.type) {
    case W_TIMESTAMP: case W_T1: case W_T4: { i64 t; if (e.type == W_T1) cs_tcp(to); memcpy(&t, &p.b[1], 8); e.tag.t = t; break; }
    case W_NET: case W_TAG: case W_PTAG: case W_LTC: case W_STOP_REQ: case W_STOP_REPLY: case W_STOP_GRANT: tag(1); break;
    case W_ABSENT: e.port = u16(1); e.fed = u16(3); tag(5); break;
    case W_MESSAGE: case W_P2P_MSG: case W_TAGGED: case W_P2P_TAGGED: e.port = u16(1); e.fed = u16(3); memcpy(&e.len, &p.b[5], 4); p.skip = e.len; if (h == 21) tag(9); break;
    }
    wire.push_back(e); p.b.clear();
    if (e.type == W_TIMESTAMP && from == (int)C.get("nf")) { loss_start(e.tag); cs_fed_start(e.tag.t); }
  }
}
std::map<std::pair<int, int>, std::vector<Arrival>> arrivals;
static std::map<std::pair<int, int>, Tag> told;
void wire_arrived(WireParse &p, int from, int to, const char *d, size_t n) {
  static const bool on = C.get("decentralized");
  int nf = (int)C.get("nf");
  if (!on || from >= nf || to >= nf || p.bad) return;
  for (size_t k = 0; k < n; k++) {
    if (p.skip) { if (!--p.skip) arrivals[{to, p.port}].back().full = now_ns; continue; }
    p.b += d[k];
    int h = hlen(p.b);
    if (h == 0 || h > 100000) { p.bad = true; return; }
    if (h < 0 || p.b.size() < (size_t)h) continue;
    int type = (unsigned char)p.b[0]; uint16_t v; u32 len; Tag t{NEVER_T, 0};
    if (type == W_P2P_MSG || type == W_P2P_TAGGED) {
      memcpy(&v, &p.b[1], 2); memcpy(&len, &p.b[5], 4); p.skip = len; p.port = v;
      std::pair<int, int> q{to, p.port}; if (!told.count(q)) told[q] = Tag{NEVER_T, 0};
      arrivals[q].push_back(Arrival{now_ns}); arrivals[q].back().known = told[q]; if (!len) arrivals[q].back().full = now_ns;
    }
    if (type == W_P2P_TAGGED || type == W_ABSENT) {
      int o = type == W_ABSENT ? 5 : 9; memcpy(&v, &p.b[1], 2); memcpy(&t.t, &p.b[o], 8); memcpy(&t.m, &p.b[o + 8], 4);
      std::pair<int, int> q{to, (int)v}; if (!told.count(q) || told[q] < t) told[q] = t;
    }
    p.b.clear();
  }
}
