// Processes that try to join a federation without a right to, and a process that pretends to be the coordinator.
#include "prog.h"
#include "wire.h"
#include "net.h"
#include <cstring>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#define X __attribute__((visibility("default"), used))
enum { A_END, A_SLEEP, A_CONNECT, A_SEND, A_RECV, A_CLOSE, A_JOINED, A_LISTEN, A_ACCEPT, A_P2P, A_P2P_JOINED };
enum { D_NONE, D_RESPONSE, D_RTI_RESPONSE };                       // computed when sent
struct Step { int op; i64 a; std::string data; int dyn = 0, var = 0; };
struct Try { std::string what, rx; bool ack_ok = false, p2p = false, connected = false, complete = false; u64 order = 0; int fed = -1; };
struct Adv { std::vector<Step> s; size_t at = 0; i64 give_up = 0; std::vector<Try> tries; bool fake = false, silent = false; int accepts = 0; };
static std::map<Node *, Adv> advs; static int nfed, auth_on; static const char *ID = "Sim";
static std::map<int, std::string> raw;                              // what each federate first wrote to the coordinator
bool is_adv(int node) { return node >= 0 && advs.count(nodes[node]); }
void adv_capture(int from, const char *d, size_t n) { auto &s = raw[from]; if (s.size() < 400) s.append(d, std::min(n, 400 - s.size())); }
static std::string hmac(const std::string &key, const std::string &m) { unsigned char o[64]; unsigned l = 0; HMAC(EVP_sha256(), key.data(), (int)key.size(), (const unsigned char *)m.data(), m.size(), o, &l); return std::string((char *)o, l); }
static std::string u16s(unsigned v) { return std::string{(char)(v & 255), (char)(v >> 8 & 255)}; }
static std::string bytes(Rng &r, size_t n) { std::string s; while (n--) s += (char)r.below(256); return s; }
static std::string fed_ids(unsigned id, const std::string &f, int type = W_FED_IDS) { return std::string(1, (char)type) + u16s(id) + std::string(1, (char)f.size()) + f; }
static std::string neighbours(int up, int down, const std::string &body) { std::string s(1, (char)W_NEIGH); s.append((char *)&up, 4); s.append((char *)&down, 4); return s + body; }
static int joined() { int k = 0; for (auto &e : wire) k += e.type == 255 && e.from == nfed && e.to < nfed; return k; }
static bool joined(int f) { for (auto &e : wire) if (e.type == 255 && e.from == nfed && e.to == f) return true; return false; }
static bool p2p_joined(int srv, int f) { for (auto &e : wire) if (e.type == 255 && e.from == srv && e.to == f) return true; return false; }
static std::string wrong_id(Rng &r) { static const char *w[] = {"", "S", "Si", "Simx", "Sim1", "sim", "SiM", "Xim", "Unidentified Federation"}; if (r.p(0.2)) return std::string("Sim\0", 4); if (r.p(0.15)) return bytes(r, r.range(1, 255)); return w[r.below(9)]; }
// One attempt: the steps of one connection.
static void attempt(Adv &v, Rng &r, Prog &p, const std::string &nm) {
  Try t; std::vector<Step> s; auto send = [&](const std::string &d) { s.push_back({A_SEND, 0, d}); }; auto recv = [&](i64 w, int n = 300) { s.push_back({A_RECV, w, "", n}); };
  unsigned id = (unsigned)r.below(nfed); std::string msg; bool finish = true; i64 linger = r.p(0.5) ? r.range(0, 200) * US : r.range(0, 50) * 1000 * US;
  std::vector<sp_net> p2p; for (auto &n : p.nets) if (n.p2p) p2p.push_back(n);
  if (!p2p.empty() && r.p(0.45)) {
    auto n = p2p[r.below(p2p.size())]; t.p2p = true; t.fed = n.dst_node; int kind = (int)r.below(6);
    if (r.p(0.3)) s.push_back({A_P2P_JOINED, r.range(1, 500) * 1000 * US, "", n.dst_node, n.src_node});
    switch (kind) {
    case 0: t.what = "wrong federation"; msg = fed_ids(n.src_node, wrong_id(r), W_P2P_ID); break;
    case 1: t.what = "identity out of range"; msg = fed_ids(r.p(0.4) ? 4 : (unsigned)r.range(4, 65535), ID, W_P2P_ID);   // the images are built for 4 federates
      if (r.p(0.5)) msg += std::string(1, (char)W_P2P_TAGGED) + bytes(r, 40); break;
    case 2: t.what = "duplicate"; s.push_back({A_P2P_JOINED, 3000000 * US, "", n.dst_node, n.src_node, }); s.back().a |= 1; msg = fed_ids(n.src_node, ID, W_P2P_ID); break;
    case 3: t.what = "garbage"; msg = bytes(r, r.range(1, 40)); if (msg[0] == W_P2P_ID) msg[0] = 99; break;
    case 4: t.what = "truncated"; msg = fed_ids(n.src_node, ID, W_P2P_ID); msg.resize(r.below(msg.size())); break;
    default: t.what = "coordinator's message"; msg = fed_ids(n.src_node, ID); break;
    }
    s.push_back({A_P2P, 0, "", n.dst_node}); send(msg);
  } else {
    if (r.p(0.3)) s.push_back({A_JOINED, r.range(1, 300) * 1000 * US, "", (int)r.range(1, nfed)});
    if (r.p(0.1)) s.push_back({A_SLEEP, r.range(500, 3000) * 1000 * US, ""});
    s.push_back({A_CONNECT, 15045, ""});
    bool hs = auth_on && r.p(0.75);
    if (hs) {
      std::string hello = std::string(1, 100) + u16s(r.p(0.8) ? id : (unsigned)r.range(0, 65535)) + bytes(r, 8); int k = (int)r.below(10);
      if (k == 0) { t.what = "truncated nonce"; hello.resize(r.below(hello.size())); send(hello); finish = false; }
      else {
        send(hello); recv(60 * 1000 * US, 41);
        if (k == 1) { t.what = "no response"; finish = false; }
        else { s.push_back({A_SEND, 0, "", D_RESPONSE, (int)r.below(9)}); t.what = "wrong response " + std::to_string(s.back().var); s.back().a = (i64)r.below(256); if (r.p(0.5)) recv(r.range(0, 2000) * US, 2); send(fed_ids(id, ID)); send(neighbours(0, 0, "") + std::string(1, (char)254) + u16s(65535)); }
      }
      msg = "";
    } else {
      int kind = (int)r.below(10);
      switch (kind) {
      case 0: case 1: t.what = "wrong federation"; msg = fed_ids(id, wrong_id(r)); break;
      case 2: t.what = "identity out of range"; msg = fed_ids(r.p(0.4) ? nfed : (unsigned)r.range(nfed, 65535), ID); break;
      case 3: t.what = "garbage"; msg = bytes(r, r.range(1, 60)); if (msg[0] == W_FED_IDS) msg[0] = 99; break;
      case 4: t.what = "truncated"; msg = fed_ids(id, ID); msg.resize(r.below(msg.size())); break;
      case 5: t.what = "silent"; break;
      case 6: t.what = "duplicate"; if (auth_on) { msg = fed_ids(id, ID); break; } s.insert(s.end() - 1, {A_JOINED, 3000000 * US, "", -1, (int)id}); s[s.size() - 2].a |= 1; msg = fed_ids(id, ID) + neighbours(0, 0, "") + std::string(1, (char)254) + u16s(65535); break;
      case 7: t.what = "unexpected type"; { static const int ty[] = {W_P2P_ID, W_P2P_TAGGED, 100, W_NET, W_RESIGN, W_FAILED, W_TIMESTAMP, W_STOP_REQ, W_NEIGH}; msg = fed_ids(id, ID, ty[r.below(9)]); if (auth_on && msg[0] == 100) msg[0] = 99; } break;
      default: {                                                      // gets the identity, but never completes the handshake
        t.what = "broken handshake"; t.ack_ok = !auth_on; std::string id0 = fed_ids(id, ID), rest;
        switch (r.below(C.get("csinit") ? 6 : 5)) {
        case 5: rest = neighbours(0, 0, "") + std::string(1, (char)254) + u16s((unsigned)r.below(3)) + (r.p(0.4) ? "" : std::string(1, (char)(r.p(0.7) ? W_T3 : 99)) + (r.p(0.5) ? std::string(4, (char)255) : bytes(r, r.range(0, 5)))); break;   // stops during the initial clock synchronisation
        case 0: rest = neighbours(0, 0, "").substr(0, r.below(9)); break;
        case 1: rest = neighbours(1, 1, u16s(0) + std::string(8, 0)).substr(0, 9 + r.below(10)); break;
        case 2: rest = bytes(r, r.range(9, 30)); if (rest[0] == (char)W_NEIGH) rest[0] = 99; break;
        case 3: rest = neighbours(0, 0, "") + bytes(r, r.range(0, 3)); if (rest.size() > 9 && rest[9] == (char)254) rest[9] = 99; break;
        default: rest = r.p(0.5) ? neighbours(-1, 0, "") : r.p(0.5) ? neighbours(0, r.p(0.5) ? INT32_MAX : INT32_MIN, "") : neighbours(1, 0, u16s((unsigned)r.range(nfed, 65535)) + std::string(8, 0)) + std::string(1, (char)254) + u16s(65535);
        }
        if (r.p(0.5)) { send(id0); recv(20 * 1000 * US, 1); send(rest); } else msg = id0 + rest;
        break; }
      }
      if (kind <= 2 || kind == 6 || kind == 7) t.complete = !auth_on;
      if (!msg.empty()) { if (msg.size() > 1 && r.p(0.3)) { size_t c = 1 + r.below(msg.size() - 1); send(msg.substr(0, c)); s.push_back({A_SLEEP, r.range(0, 5000) * US, ""}); send(msg.substr(c)); } else send(msg); }
    }
  }
  if (t.complete && r.p(0.5)) recv(3 * SEC_, 300);
  else if (r.p(0.01)) { s.push_back({A_SLEEP, 1000 * SEC_, ""}); t.what += " (stays silent)"; v.silent = true; }
  else if (finish && r.p(0.8)) recv(linger + (r.p(0.5) ? 100 * 1000 * US : 0), 300); else if (r.p(0.5)) s.push_back({A_SLEEP, linger, ""});
  s.push_back({A_CLOSE, (i64)v.tries.size(), ""});
  if (!p.async.empty() && r.p(0.2)) s.push_back({A_SLEEP, r.range(0, 3000) * US, ""});
  for (auto &x : s) if (x.op == A_CONNECT || x.op == A_P2P) x.var = (int)v.tries.size();
  v.tries.push_back(t); if (S.drop.count(nm)) return;
  v.s.insert(v.s.end(), s.begin(), s.end());
}
void adv_add(Rng &r, int nf, bool auth, bool fake) {
  nfed = nf; auth_on = auth; int n = fake ? 1 : (int)r.range(1, 3);
  for (int k = 0; k < n; k++) {
    Node *a = node_new("adv" + std::to_string(k), "adv"); a->handle = image_handle("adv", k); a->args = {"adv"}; a->icfg["cores"] = 1; Adv &v = advs[a]; v.fake = fake;
    if (fake) {
      v.s.push_back({A_LISTEN, 15045, ""});
      for (int i = 0; !auth && i < 500; i++) {                        // never acknowledges anybody
        static const char ty[] = {W_REJECT, W_REJECT, W_RESIGN, W_TIMESTAMP, W_FAILED, W_FED_IDS, 99};
        std::string re(1, ty[r.below(7)]); if (re[0] == W_REJECT) re += (char)r.range(1, 7); if (re[0] == W_TIMESTAMP) re += std::string(8, 0);
        v.s.push_back({A_ACCEPT, 200 * SEC_, ""}); v.s.push_back({A_RECV, 100 * 1000 * US, "", 7});
        if (r.p(0.9)) { v.s.push_back({A_SEND, 0, re}); v.s.push_back({A_RECV, r.p(0.5) ? 20 * 1000 * US : 0, "", 200}); }
        v.s.push_back({A_CLOSE, -1, ""});
      }
      for (int i = 0; auth && i < 12; i++) {
        v.s.push_back({A_ACCEPT, i < nf ? 200 * SEC_ : 400 * SEC_, ""}); v.s.push_back({A_RECV, 100 * 1000 * US, "", 11});
        v.s.push_back({A_SEND, (i64)r.below(256), "", D_RTI_RESPONSE, (int)r.below(9)}); v.s.push_back({A_RECV, r.p(0.7) ? 300 * 1000 * US : 0, "", 200}); v.s.push_back({A_CLOSE, -1, ""});
      }
      continue;
    }
    int m = (int)r.range(1, 4); v.s.push_back({A_SLEEP, r.p(0.4) ? 0 : r.range(0, 3000) * US, ""});
    for (int i = 0; i < m; i++) attempt(v, r, *G, "adv" + std::to_string(k) + "." + std::to_string(i));
  }
}
extern "C" {
X int sim_adv_next(int64_t *a, unsigned char *buf, int *n) {
  Adv &v = advs.at(cur->node);
  for (;;) {
    if (v.at >= v.s.size()) return A_END;
    Step &s = v.s[v.at];
    *a = s.a; *n = 0;
    switch (s.op) {
    case A_JOINED: case A_P2P_JOINED: {
      if (!v.give_up) v.give_up = now_ns + s.a;
      bool ok = s.op == A_JOINED ? (s.dyn < 0 ? joined(s.var) : joined() >= s.dyn) : p2p_joined(s.dyn, s.var);
      if (!ok && now_ns < v.give_up) { *a = 50 * US; return A_SLEEP; }
      v.give_up = 0; v.at++;
      if (!ok && (s.a & 1)) { while (v.at < v.s.size() && v.s[v.at].op != A_CLOSE) v.at++; }   // a duplicate makes sense only after the original
      continue; }
    case A_P2P: v.at++; v.tries[s.var].connected = true; *a = net_listen_port(nodes[s.dyn]); if (*a <= 0) { while (v.at < v.s.size() && v.s[v.at].op != A_CLOSE) v.at++; continue; } return A_CONNECT;
    case A_SEND: {
      std::string d = s.data; std::string nonce = "........";
      if (s.dyn == D_RESPONSE) {
        std::string rx; for (size_t i = v.at; i-- > 0;) if (v.s[i].op == A_CONNECT) { rx = v.tries[v.s[i].var].rx; break; }
        if (rx.size() >= 9) nonce = rx.substr(1, 8);
        std::string good = hmac(ID, std::string(1, 102) + nonce), m = good;
        switch (s.var) {
        case 0: m[31] ^= 1 + (char)(s.a & 127); break;
        case 1: m[0] ^= 1 + (char)(s.a & 127); break;
        case 2: m[s.a & 31] ^= 1 << (s.a >> 5); break;
        case 3: m = hmac(s.a & 1 ? "Si" : "Simx", std::string(1, 102) + nonce); break;
        case 4: m = hmac(ID, std::string(1, 101) + nonce); break;
        case 5: m = std::string(32, 0); break;
        case 6: m = hmac(ID, std::string(1, 102) + std::string(8, 0)); break;
        case 7: { m = std::string(32, 1); for (auto &x : raw) if (x.second.size() >= 44 && (s.a-- & 1 || m[0] == 1)) m = x.second.substr(12, 32); break; }   // replayed
        default: m = rx.size() >= 41 ? rx.substr(9, 32) : m.substr(1) + 'x';                                                            // reflected
        }
        d = std::string(1, 102) + (s.var == 5 && s.a & 1 ? m.substr(0, 5) : m);
      } else if (s.dyn == D_RTI_RESPONSE) {
        std::string rx = v.tries.empty() ? "" : v.tries.back().rx; rx.resize(11); std::string own = "abcdefgh", m = hmac(ID, std::string(1, 101) + rx.substr(1)); char ty = 101;
        switch (s.var) {
        case 0: m[31] ^= 1 + (char)(s.a & 127); break;
        case 1: m[s.a & 31] ^= 1 << (s.a >> 5); break;
        case 2: m = hmac(s.a & 1 ? "Si" : "Simx", std::string(1, 101) + rx.substr(1)); break;
        case 3: m = hmac(ID, std::string(1, 101) + rx.substr(1, 2) + own); break;
        case 4: m = hmac(ID, std::string(1, 101) + std::string(1, (char)(rx[1] ^ 1)) + rx.substr(2)); break;
        case 5: m = std::string(32, (char)s.a); break;
        case 6: ty = (char)(s.a == 101 ? 0 : s.a); break;
        case 7: m = m.substr(0, s.a & 31); break;
        default: m = hmac(ID, std::string(1, 102) + rx.substr(1)); break;
        }
        d = std::string(1, ty) + own + m; if (s.var == 6 && s.a % 3 == 0) d = std::string("\0", 1) + (char)s.a; if (s.var == 6 && s.a % 3 == 1) d = std::string("\xff", 1);
      }
      *n = (int)d.size(); memcpy(buf, d.data(), d.size()); break; }
    case A_RECV: *n = s.dyn; break;
    case A_CONNECT: v.tries[s.var].connected = true; probe(PR_ADV_TRY); break;
    }
    v.at++; return s.op;
  }
}
X void sim_adv_result(int op, int r, const void *data, int n) {
  Adv &v = advs.at(cur->node);
  if (op == A_ACCEPT) { v.tries.push_back(Try{}); v.accepts += r >= 0; if (r < 0) v.at = v.s.size(); return; }
  if (op == A_CONNECT) { if (r == 0) v.tries[v.s[v.at - 1].var].order = net_conn_order[cur->node->id]; else v.tries[v.s[v.at - 1].var].complete = false; }
  if (op != A_RECV || v.tries.empty()) return;
  size_t k = v.tries.size() - 1; if (!v.fake) for (size_t i = v.at; i-- > 0;) if (v.s[i].op == A_CONNECT || v.s[i].op == A_P2P) { k = v.s[i].var; break; }
  Try &t = v.tries[k];
  if (n <= 0 && t.complete && t.rx.empty()) {                         // connections are handled in the order in which they are made
    for (auto &e : wire) if (e.type == 255 && e.from == nfed && net_conn_order[e.to] > t.order && e.sim + SEC_ / 5 < now_ns) fail("refused", "the coordinator did not answer a connection that it had to refuse: %s", t.what.c_str());
  }
  if (n <= 0) return;
  t.rx.append((const char *)data, (size_t)n); probe(PR_ADV_REPLY);
  if (v.fake && !auth_on) { if (t.rx.size() > 7 && t.rx[7] != W_FAILED) fail("auth", "a federate went on with a coordinator that had not acknowledged it (reply %d %d)", (unsigned char)v.s[v.at - 2].data[0], (int)v.s[v.at - 2].data.back()); return; }
  if (v.fake) { size_t q = t.rx.size(); if (q > 11 && (t.rx[11] == 102 || t.rx[11] == W_FED_IDS)) fail("auth", "a federate went on with a coordinator that had not proven the shared secret (response variant %d)", v.s[v.at - 2].var); return; }
  std::string x = t.rx; if (auth_on && !t.p2p && x[0] == 101) { if (x.size() <= 41) return; x = x.substr(41); }
  LOGV("attempt (%s) got reply %d %d", t.what.c_str(), (unsigned char)x[0], x.size() > 1 ? (unsigned char)x[1] : -1);
  if ((unsigned char)x[0] == 255) { if (!t.ack_ok) fail("admitted", "%s admitted a connection that it had to refuse: %s", t.p2p ? "a federate" : "the coordinator", t.what.c_str()); }
  else if (x[0] != W_REJECT) fail("admitted", "%s replied with a message of type %d to a connection that it had to refuse: %s", t.p2p ? "a federate" : "the coordinator", (unsigned char)x[0], t.what.c_str());
  else probe(PR_ADV_REJECT);
}
}
// Ends the run if a process that never sends anything has kept the others waiting, which is on record.
void adv_silent() { for (auto &a : advs) if (a.second.silent && known_finding("silent-client")) finish_ok(); }
// After the run: every federate was admitted exactly once.
void adv_check(int nf) {
  std::map<int, int> acks, p2p; bool fake = false; for (auto &a : advs) fake |= a.second.fake;
  for (auto &e : wire) if (e.type == 255) { if (e.from == nf) acks[e.to]++; }
  for (auto &a : advs) if (a.first->alive) fail("lost", "node %s never ended", a.first->name.c_str());
  if (fake) {
    for (int i = 0; i < nf; i++) { if (nodes[i]->alive) fail("lost", "federate %d waits forever for a coordinator that did not prove the shared secret", i); if (nodes[i]->status == 0) fail("auth", "federate %d ended normally without a coordinator", i); }
    if (!Hs.inv.empty()) fail("auth", "a federate ran a reaction without a coordinator");
    return;
  }
  // Nobody else can keep the federation from starting.
  i64 last = 0; int started = 0; for (auto &e : wire) if (e.type == W_TIMESTAMP && e.from == nf) last = std::max(last, e.sim), started++;
  if (last > 100 * SEC_ || started < nf) adv_silent();
  if (last > 100 * SEC_) fail("blocked", "the federation starts only after %ld s", last / SEC_);
  for (int i = 0; i < nf; i++) if (acks[i] != 1) fail("admitted", "federate %d was admitted %d times", i, acks[i]);
}
