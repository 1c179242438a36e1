// Simulated sockets: TCP streams and UDP datagrams between the nodes.
#include "sim.h"
#include "net.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <sys/select.h>
#include <csignal>
#define X __attribute__((visibility("default"), used))

struct Seg { i64 t; std::string data; int flag; };           // flag: 0 data, 1 FIN, 2 RST
struct Sock;
#include "wire.h"
#include "prog.h"
struct End {                                                  // one end of a TCP connection
  Node *node = nullptr; End *peer = nullptr; int lport = 0, pport = 0;
  std::string rx; size_t rpos = 0; std::deque<Seg> q;         // q: in flight towards this end
  size_t flight = 0; i64 last_t = 0; bool fin = false, rst = false, rst_seen = false, shut_rd = false, shut_wr = false, dead = false;
  std::vector<Fiber *> wait; WireParse wp, ap;
  size_t avail() const { return rx.size() - rpos; }
};
struct Dgram { int from; std::string data; };
enum { SK_NEW, SK_LISTEN, SK_TCP, SK_UDP };
struct Sock {
  int kind = SK_NEW, type = SOCK_STREAM, port = 0, refs = 1, peer_port = 0, backlog = 0; Node *node = nullptr; End *e = nullptr; bool shut = false;
  i64 rcvto = 0, sndto = 0; std::deque<End *> acceptq; std::deque<Dgram> dg; std::vector<Fiber *> wait;
};
struct FdTab { std::vector<Sock *> fd; };
static std::map<int, Sock *> tcp_ports, udp_ports; static int ephemeral = 40000;
static double p_delay, p_frag, p_shortw, p_eintr, p_reset, p_uloss, p_udup, p_udelay, p_conn, p_part, p_bind, p_uforeign; static i64 lat_ns, delay_unit, udp_unit; static u64 resets_left, parts_left;
static std::map<int, i64> part_until;
u64 net_bytes = 0, net_segs = 0;
static const size_t WINDOW = 65536;

void net_reset_node(Node *n);
static void on_exit_node(Node *n);
void net_start() {
  auto g = [](const char *k) { return C.get(k) * 1e-6; };
  p_delay = g("p_net_delay_ppm"); p_frag = g("p_net_frag_ppm"); p_shortw = g("p_net_shortw_ppm"); p_eintr = g("p_net_eintr_ppm"); p_reset = g("p_net_reset_ppm");
  p_uloss = g("p_udp_loss_ppm"); p_udup = g("p_udp_dup_ppm"); p_udelay = g("p_udp_delay_ppm"); p_conn = g("p_connect_ppm"); p_part = g("p_part_ppm"); p_bind = g("p_bind_ppm");
  lat_ns = C.get("lat_ns", 50 * US); delay_unit = C.get("delay_unit_ns", 10 * US); resets_left = (u64)C.get("max_resets"); parts_left = (u64)C.get("max_parts", 3);
  p_uforeign = g("p_udp_foreign_ppm"); udp_unit = C.get("udp_unit_ns", delay_unit);
  hook_node_exit = on_exit_node;
}
static FdTab *tab(Node *n) { if (!n->extra) n->extra = new FdTab; return (FdTab *)n->extra; }
static int fd_new(Node *n, Sock *s) { FdTab *t = tab(n); for (size_t i = 3;; i++) { if (t->fd.size() <= i) t->fd.resize(i + 1, nullptr); if (!t->fd[i]) { t->fd[i] = s; return (int)i; } } }
static Sock *fd_get(int fd) { FdTab *t = tab(cur->node); if (fd < 0 || (size_t)fd >= t->fd.size() || !t->fd[fd]) { errno = EBADF; return nullptr; } return t->fd[fd]; }
static void wake_all(std::vector<Fiber *> &w) { for (auto f : w) wake(f, 0); }
// 0: woken, 1: timed out
static int sock_wait(std::vector<Fiber *> &w, i64 deadline, const char *why) {
  w.push_back(cur); int r = 0;
  if (deadline == FOREVER_T) block(why); else r = block_until(deadline, why);
  auto i = std::find(w.begin(), w.end(), cur); if (i != w.end()) w.erase(i);
  return r;
}
static i64 base_latency(Node *a, Node *b) {
  return lat_ns / 2 + (i64)(mix2(S.seed, mix2((u64)std::min(a->id, b->id), (u64)std::max(a->id, b->id))) % (u64)(lat_ns + 1));
}
static i64 latency(Node *a, Node *b) {
  i64 l = base_latency(a, b); u32 v = choose(K_NET_DELAY, 1000, p_delay); return l + (i64)v * delay_unit;
}
static i64 healed(Node *a, Node *b, i64 t) { i64 x = std::max(part_until[a->id], part_until[b->id]); return std::max(t, x); }
static void deliver(End *e);
static void send_seg(End *to, std::string data, int flag) {
  Node *from = to->peer ? to->peer->node : to->node;
  i64 t = std::max(to->last_t, now_ns + latency(from, to->node)); t = healed(from, to->node, t);
  to->last_t = t; cs_tcp_max = std::max(cs_tcp_max, t - now_ns); to->flight += data.size(); net_segs++;
  to->q.push_back(Seg{t, std::move(data), flag});
  timer_at(t, [to] { deliver(to); });
}
static void reset_end(End *e) { e->rst = true; e->q.clear(); e->flight = 0; wake_all(e->wait); if (e->peer) wake_all(e->peer->wait); }
static void deliver(End *e) {
  while (!e->q.empty() && e->q.front().t <= now_ns) {
    Node *from = e->peer ? e->peer->node : e->node;
    i64 h = healed(from, e->node, now_ns);
    if (h > now_ns) { for (auto &s : e->q) if (s.t < h) s.t = h; e->last_t = std::max(e->last_t, h); timer_at(h, [e] { deliver(e); }); return; }
    Seg s = std::move(e->q.front()); e->q.pop_front(); e->flight -= std::min(e->flight, s.data.size());
    hash_mix(mix2((u64)e->lport << 20 | (u64)e->pport, s.data.size() * 4 + s.flag)); if (s.data.size() >= 8) { u64 x; memcpy(&x, s.data.data(), 8); hash_mix(x); }
    if (s.flag == 2) { reset_end(e); return; }
    if (e->dead || e->rst) { if (s.flag == 0 && e->peer && !e->peer->dead) send_seg(e->peer, "", 2); continue; }
    if (s.flag == 1) { e->fin = true; wake_all(e->wait); continue; }
    if (e->shut_rd && e->shut_wr) { e->rst = true; if (e->peer) send_seg(e->peer, "", 2); wake_all(e->wait); continue; }
    if (e->rpos > 4096 && e->rpos * 2 > e->rx.size()) { e->rx.erase(0, e->rpos); e->rpos = 0; }
    if (e->peer && e->peer->node && e->node) wire_arrived(e->ap, e->peer->node->id, e->node->id, s.data.data(), s.data.size());
    e->rx += s.data; net_bytes += s.data.size(); wake_all(e->wait); if (e->peer) wake_all(e->peer->wait);
  }
}
static void end_close(End *e) {   // last reference gone
  if (e->dead) return;
  e->dead = true;
  if (e->peer && !e->rst) { if (e->avail()) send_seg(e->peer, "", 2); else if (!e->shut_wr) send_seg(e->peer, "", 1); }
  if (e->peer) wake_all(e->peer->wait);
}
static void sock_unref(Sock *s) {
  if (--s->refs > 0) return;
  if (s->e) end_close(s->e);
  for (auto e : s->acceptq) { e->dead = true; if (e->peer) send_seg(e->peer, "", 2); }
  if (s->port) { auto &m = s->type == SOCK_STREAM ? tcp_ports : udp_ports; auto i = m.find(s->port); if (i != m.end() && i->second == s) m.erase(i); }
  s->kind = SK_NEW;
}
struct Hold { Sock *s; explicit Hold(Sock *s_) : s(s_) { s->refs++; } ~Hold() { int e = errno; sock_unref(s); errno = e; } };
static void on_exit_node(Node *n) {
  FdTab *t = (FdTab *)n->extra; if (!t) return;
  for (auto &s : t->fd) if (s) { s->refs = 1; sock_unref(s); s = nullptr; }
}
void net_partition(Node *n, i64 dur) { part_until[n->id] = std::max(part_until[n->id], now_ns + dur); LOGV("node %d is cut off for %ld us", n->id, dur / 1000); }
int net_connections(Node *n) { int k = 0; FdTab *t = (FdTab *)n->extra; if (t) for (auto s : t->fd) if (s && s->kind == SK_TCP && !s->e->rst && !s->e->dead) k++; return k; }
// Reset the idx-th open connection of a node.
bool net_reset_conn(Node *n, int idx) {
  FdTab *t = (FdTab *)n->extra; if (!t) return false;
  for (auto s : t->fd) if (s && s->kind == SK_TCP && !s->e->rst && !s->e->dead && idx-- == 0) {
    LOGV("connection %d-%d of node %d is reset", s->e->lport, s->e->pport, n->id); probe(PR_RESET_CONN); End *p = s->e->peer; reset_end(s->e); if (p) reset_end(p); return true;
  }
  return false;
}
bool net_reset_between(Node *n, Node *m) {
  FdTab *t = (FdTab *)n->extra; bool any = false; if (!t) return false;
  for (auto s : t->fd) if (s && s->kind == SK_TCP && !s->e->rst && !s->e->dead && s->e->peer && s->e->peer->node == m) {
    LOGV("connection %d-%d of node %d is reset", s->e->lport, s->e->pport, n->id); probe(PR_RESET_CONN); End *p = s->e->peer; reset_end(s->e); reset_end(p); any = true;
  }
  return any;
}
static void maybe_fault(Node *n) {
  if (parts_left && (p_part > 0 || S.listed)) { u32 v = choose(K_PARTITION, 200, p_part); if (v) { parts_left--; net_partition(n, (i64)v * C.get("part_unit_ns", 100 * US)); } }
}
static i64 dl(i64 to) { return to > 0 ? now_ns + to : FOREVER_T; }
static ssize_t tcp_read(Sock *s, void *buf, size_t n, bool dontwait, bool peek) {
  Hold h(s); End *e = s->e; i64 d = dl(s->rcvto);
  if (!peek && !dontwait) { u32 x = choose(K_NET_EINTR, 2, p_eintr); if (x) { probe(PR_EINTR); errno = EINTR; return -1; } }
  for (;;) {
    if (e->avail()) { size_t k = std::min(n, e->avail()); heap_check(buf, k, 1, "read"); memcpy(buf, e->rx.data() + e->rpos, k); if (!peek) { e->rpos += k; if (e->peer) wake_all(e->peer->wait); } if (k < n) probe(PR_NET_FRAG); return (ssize_t)k; }
    if (e->rst) { if (e->rst_seen) return 0; e->rst_seen = true; errno = ECONNRESET; return -1; }
    if (e->fin || e->shut_rd) return 0;
    if (dontwait) { errno = EAGAIN; return -1; }
    if (sock_wait(e->wait, d, "socket read") == 1) { errno = EAGAIN; return -1; }
  }
}
i64 trace_start = 0;
// describes one message of the federated protocol in the trace
static std::string decode(const unsigned char *b, size_t n) {
  static const char *N[] = {"REJECT", "FED_IDS", "TIMESTAMP", "MESSAGE", "RESIGN", "TAGGED", "NET", "TAG", "PTAG", "LTC", "STOP_REQUEST", "STOP_REPLY", "STOP_GRANTED", "ADDR_QUERY", "ADDR_REPLY", "ADDR_ADVERT", "P2P_ID", "P2P_MESSAGE", "P2P_TAGGED", "T1", "T3", "T4", "PROBE", "ABSENT", "NEIGHBORS", "FAILED"};
  char s[120]; int o = 0; if (!n) return "";
  auto i64at = [&](size_t k) { i64 v = 0; if (k + 8 <= n) memcpy(&v, b + k, 8); return v; }; auto u32at = [&](size_t k) { u32 v = 0; if (k + 4 <= n) memcpy(&v, b + k, 4); return v; }; auto u16at = [&](size_t k) { uint16_t v = 0; if (k + 2 <= n) memcpy(&v, b + k, 2); return v; };
  o = snprintf(s, sizeof s, "%s", b[0] <= 25 ? N[b[0]] : b[0] == 255 ? "ACK" : b[0] == 254 ? "UDP_PORT" : "?"); size_t k = 0;
  switch (b[0]) {
  case 6: case 7: case 8: case 9: case 10: case 11: case 12: k = 1; break;
  case 23: o += snprintf(s + o, sizeof s - o, " port %d fed %d", u16at(1), u16at(3)); k = 5; break;
  case 5: case 18: o += snprintf(s + o, sizeof s - o, " port %d fed %d len %d", u16at(1), u16at(3), u32at(5)); k = 9; break;
  case 17: o += snprintf(s + o, sizeof s - o, " port %d fed %d len %d", u16at(1), u16at(3), u32at(5)); break;
  case 2: if (n != 9) { return "?"; } trace_start = i64at(1); snprintf(s + o, sizeof s - o, " %ld", i64at(1)); return s;
  }
  if (k && n >= k + 12) { i64 t = i64at(k); if (t > NEVER_T && t < FOREVER_T) t -= trace_start; snprintf(s + o, sizeof s - o, " (%ld,%u)", t, u32at(k + 8)); }
  return s;
}
static ssize_t tcp_write(Sock *s, const void *buf, size_t n) {
  Hold h(s); End *e = s->e; End *to = e->peer; size_t done = 0; i64 d = dl(s->sndto);
  heap_check(buf, n, 0, "write");
  { u32 x = choose(K_NET_EINTR, 2, p_eintr); if (x) { probe(PR_EINTR); errno = EINTR; return -1; } }
  LOGV("write %d->%d %zu bytes %s", e->lport, e->pport, n, decode((const unsigned char *)buf, n).c_str());
  size_t want = n; if (n > 1) { u32 x = choose(K_NET_SHORTW, 100, p_shortw); if (x) { want = std::max<size_t>(1, n * x / 100); if (want > n) want = n; } }
  if (resets_left && (p_reset > 0 || S.listed) && choose(K_NET_RESET, 2, p_reset)) { resets_left--; LOGV("connection %d-%d is reset", e->lport, e->pport); probe(PR_RESET_CONN); reset_end(e); reset_end(to); }
  i64 cut = loss.kind ? loss_write(e->node, to->node, n) : -1; if (cut >= 0) want = std::min(want, (size_t)cut);
  while (done < want) {
    if (e->rst || e->shut_wr) {
      if (done) return (ssize_t)done;
      if (e->rst && !e->rst_seen) { e->rst_seen = true; errno = ECONNRESET; return -1; }
      if (!e->node->sigpipe_ign) { LOGV("SIGPIPE kills node %s", e->node->name.c_str()); e->node->log += "[killed by SIGPIPE]\n"; hash_mix(0x5161); Node *nd = e->node; nd->status = 128 + SIGPIPE; nd->atexits.clear(); node_do_exit(128 + SIGPIPE); }
      errno = EPIPE; return -1;
    }
    size_t used = to->flight + to->avail();
    if (used >= WINDOW && !to->dead) { if (sock_wait(e->wait, d, "socket write") == 1) { if (done) return (ssize_t)done; errno = EAGAIN; return -1; } continue; }
    size_t k = std::min(want - done, to->dead ? want - done : WINDOW - used);
    std::string data((const char *)buf + done, k);
    u32 f = k > 1 ? choose(K_NET_FRAG, 100, p_frag) : 0;
    if (f) { size_t c = std::max<size_t>(1, k * f / 100); if (c >= k) c = k - 1; send_seg(to, data.substr(0, c), 0); send_seg(to, data.substr(c), 0); }
    else send_seg(to, data, 0);
    wire_feed(e->wp, e->node->id, to->node ? to->node->id : -1, (const char *)buf + done, k);

    done += k;
  }
  if (cut >= 0) { e->wp.bad = true; sim_sleep(10, false, "loss"); }   // the connection ends here
  if (!want) { e->rst_seen = true; errno = ECONNRESET; return -1; }
  maybe_fault(e->node);
  return (ssize_t)done;
}
static void udp_deliver(int port, int from, std::string data, Node *by) {
  auto i = udp_ports.find(port); if (i == udp_ports.end()) return;
  Sock *s = i->second; if (s->peer_port && s->peer_port != from) return;
  if (s->dg.size() < 100) { hash_mix(mix2(port, data.size())); if (by) cs_dgram(by, s->node, data, true); s->dg.push_back({from, data}); wake_all(s->wait); }
}
std::map<int, u64> net_conn_order;
int net_listen_port(Node *n) { for (auto &p : tcp_ports) if (p.second->kind == SK_LISTEN && p.second->node == n) return p.first; return 0; }
static int auto_port() { while (tcp_ports.count(ephemeral) || udp_ports.count(ephemeral)) ephemeral++; return ephemeral++; }
static ssize_t udp_send(Sock *s, const void *b, size_t n, int port) {
  heap_check(b, n, 0, "sendto");
  if (!s->port) { s->port = auto_port(); udp_ports[s->port] = s; }
  if (!port) { errno = EINVAL; return -1; }
  double q_loss = cs_udp_faults() ? p_uloss : 0, q_dup = cs_udp_faults() ? p_udup : 0, q_delay = cs_udp_faults() ? p_udelay : 0;
  { auto t = udp_ports.find(port); if (t != udp_ports.end()) cs_dgram(s->node, t->second->node, std::string((const char *)b, n), false); }
  if (choose(K_UDP_LOSS, 2, q_loss)) { LOGV("datagram lost"); return (ssize_t)n; }
  auto i = udp_ports.find(port); Node *to = i == udp_ports.end() ? cur->node : i->second->node;
  int copies = 1 + (int)choose(K_UDP_DUP, 3, q_dup);
  for (int k = 0; k < copies; k++) {
    i64 t = now_ns + base_latency(cur->node, to) + (i64)choose(K_UDP_DELAY, 1000, q_delay) * udp_unit;
    if (healed(cur->node, to, t) > t) continue;
    std::string d((const char *)b, n); int from = s->port; Node *by = s->node; cs_udp_max = std::max(cs_udp_max, t - now_ns);
    timer_at(t, [port, from, d, by] { udp_deliver(port, from, d, by); });
    if (u32 f = choose(K_UDP_FOREIGN, 400, cs_udp_faults() ? p_uforeign : 0)) {   // a datagram of somebody else, or a part of one
      std::string g = f < 100 ? d.substr(0, f % d.size()) : std::string(f % 13, (char)(40 + f % 200)); probe(PR_CS_FOREIGN);
      timer_at(t + f * US, [port, g, f] { udp_deliver(port, 50000 + (int)(f % 7), g, nullptr); });
    }
  }
  return (ssize_t)n;
}
static ssize_t udp_recv(Sock *s, void *b, size_t n, bool dontwait, sockaddr *a, socklen_t *al) {
  Hold h(s); i64 d = dl(s->rcvto);
  for (;;) {
    if (!s->dg.empty()) {
      Dgram g = s->dg.front(); s->dg.pop_front(); size_t k = std::min(n, g.data.size()); heap_check(b, k, 1, "recvfrom"); memcpy(b, g.data.data(), k);
      if (a && al) { sockaddr_in in = {}; in.sin_family = AF_INET; in.sin_port = htons((uint16_t)g.from); in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(a, &in, std::min<size_t>(*al, sizeof in)); *al = sizeof in; }
      return (ssize_t)k;
    }
    if (s->shut) return 0;
    if (dontwait) { errno = EAGAIN; return -1; }
    if (sock_wait(s->wait, d, "datagram") == 1) { errno = EAGAIN; return -1; }
  }
}
static int port_of(const sockaddr *a) { return ntohs(((const sockaddr_in *)a)->sin_port); }
#define SYS cost(400); yield_point()
extern "C" {
X int __wrap_socket(int, int type, int) { SYS; Sock *s = new Sock; s->node = cur->node; s->type = type & SOCK_DGRAM ? SOCK_DGRAM : SOCK_STREAM; s->kind = s->type == SOCK_DGRAM ? SK_UDP : SK_NEW; return fd_new(cur->node, s); }
X int __wrap_setsockopt(int fd, int level, int opt, const void *v, socklen_t) {
  SYS; Sock *s = fd_get(fd); if (!s) return -1;
  if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO)) { const timeval *t = (const timeval *)v; i64 ns = (i64)t->tv_sec * SEC_ + (i64)t->tv_usec * 1000; (opt == SO_RCVTIMEO ? s->rcvto : s->sndto) = ns; }
  return 0;
}
X int __wrap_bind(int fd, const sockaddr *a, socklen_t) {
  SYS; Sock *s = fd_get(fd); if (!s) return -1;
  auto &m = s->type == SOCK_STREAM ? tcp_ports : udp_ports; int p = port_of(a);
  if (p && choose(K_BIND, 2, p_bind)) { errno = EADDRINUSE; return -1; }
  if (!p) p = auto_port();
  if (m.count(p)) { errno = EADDRINUSE; return -1; }
  s->port = p; m[p] = s; return 0;
}
X int __wrap_listen(int fd, int backlog) { SYS; Sock *s = fd_get(fd); if (!s) return -1; s->kind = SK_LISTEN; s->backlog = backlog; return 0; }
X int __wrap_getsockname(int fd, sockaddr *a, socklen_t *al) { SYS; Sock *s = fd_get(fd); if (!s) return -1; sockaddr_in in = {}; in.sin_family = AF_INET; in.sin_port = htons((uint16_t)(s->e ? s->e->lport : s->port)); in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(a, &in, std::min<size_t>(*al, sizeof in)); *al = sizeof in; return 0; }
X int __wrap_connect(int fd, const sockaddr *a, socklen_t) {
  SYS; Sock *s = fd_get(fd); if (!s) return -1; Hold h(s); int p = port_of(a);
  if (s->type == SOCK_DGRAM) { if (!s->port) { s->port = auto_port(); udp_ports[s->port] = s; } s->peer_port = p; return 0; }
  if (s->kind == SK_TCP) { errno = EISCONN; return -1; }
  i64 l = latency(cur->node, cur->node) * 2; i64 t = std::max(now_ns + l, part_until[cur->node->id]);
  while (now_ns < t) { std::vector<Fiber *> none; sock_wait(none, t, "connect"); }
  u32 f = choose(K_CONNECT, 3, p_conn);
  auto i = tcp_ports.find(p);
  if (f || i == tcp_ports.end() || i->second->kind != SK_LISTEN) { errno = f == 2 ? ETIMEDOUT : ECONNREFUSED; return -1; }
  Sock *ls = i->second; End *c = new End, *v = new End; c->peer = v; v->peer = c; c->node = cur->node; v->node = ls->node; c->lport = v->pport = s->port ? s->port : auto_port(); c->pport = v->lport = p;
  s->kind = SK_TCP; s->e = c; if (p == 15045) net_conn_order[cur->node->id] = ++gseq; ls->acceptq.push_back(v); wake_all(ls->wait); hash_mix(0xc0 + p);
  return 0;
}
X int __wrap_accept(int fd, sockaddr *a, socklen_t *al) {
  SYS; Sock *s = fd_get(fd); if (!s) return -1; Hold h(s); i64 d = dl(s->rcvto);
  if (s->kind != SK_LISTEN) { errno = EINVAL; return -1; }
  for (;;) {
    if (s->shut || s->kind != SK_LISTEN) { errno = EINVAL; return -1; }
    if (!s->acceptq.empty()) break;
    if (sock_wait(s->wait, d, "accept") == 1) { errno = EAGAIN; return -1; }
  }
  End *e = s->acceptq.front(); s->acceptq.pop_front();
  if ((e->fin || e->rst) && choose(K_ACCEPT, 2, p_conn)) { e->dead = true; errno = ECONNABORTED; return -1; }   // a pending error of the new connection
  Sock *n = new Sock; n->node = cur->node; n->kind = SK_TCP; n->e = e;
  if (a && al) { sockaddr_in in = {}; in.sin_family = AF_INET; in.sin_port = htons((uint16_t)e->pport); in.sin_addr.s_addr = htonl(INADDR_LOOPBACK); memcpy(a, &in, std::min<size_t>(*al, sizeof in)); *al = sizeof in; }
  int r = fd_new(cur->node, n); LOGV("accepted fd %d port %d from %d", r, e->lport, e->pport); return r;
}
X int __wrap_shutdown(int fd, int how) {
  SYS; Sock *s = fd_get(fd); if (!s) return -1;
  LOGV("shutdown fd %d", fd);
  if (s->kind == SK_LISTEN || s->kind == SK_UDP) { s->shut = true; wake_all(s->wait); return 0; }
  if (s->kind != SK_TCP || s->e->rst) { errno = ENOTCONN; return -1; }
  End *e = s->e;
  if (how == SHUT_WR || how == SHUT_RDWR) { if (!e->shut_wr) { e->shut_wr = true; if (e->peer) send_seg(e->peer, "", 1); } }
  if (how == SHUT_RD || how == SHUT_RDWR) e->shut_rd = true;
  wake_all(e->wait); return 0;
}
X int __wrap_close(int fd) { SYS; Sock *s = fd_get(fd); if (!s) return -1; LOGV("close fd %d", fd); tab(cur->node)->fd[fd] = nullptr; sock_unref(s); yield_point(); return 0; }
X ssize_t __wrap_read(int fd, void *b, size_t n) {
  SYS; Sock *s = fd_get(fd); if (!s) return -1; ssize_t r;
  if (s->kind == SK_TCP) r = tcp_read(s, b, n, false, false); else if (s->kind == SK_UDP) r = udp_recv(s, b, n, false, nullptr, nullptr); else { errno = ENOTCONN; return -1; }
  yield_point(); return r;
}
X ssize_t __wrap_write(int fd, const void *b, size_t n) {
  SYS; Sock *s = fd_get(fd); if (!s) return -1; ssize_t r;
  cs_slow_write();
  if (s->kind == SK_TCP) r = tcp_write(s, b, n); else if (s->kind == SK_UDP && s->peer_port) r = udp_send(s, b, n, s->peer_port); else { errno = ENOTCONN; return -1; }
  yield_point(); return r;
}
X ssize_t __wrap_recv(int fd, void *b, size_t n, int fl) {
  SYS; Sock *s = fd_get(fd); if (!s) return -1;
  if (s->kind == SK_TCP) return tcp_read(s, b, n, fl & MSG_DONTWAIT, fl & MSG_PEEK);
  if (s->kind == SK_UDP) return udp_recv(s, b, n, fl & MSG_DONTWAIT, nullptr, nullptr);
  errno = ENOTCONN; return -1;
}
X ssize_t __wrap_send(int fd, const void *b, size_t n, int) { return __wrap_write(fd, b, n); }
X ssize_t __wrap_sendto(int fd, const void *b, size_t n, int, const sockaddr *a, socklen_t) { SYS; Sock *s = fd_get(fd); if (!s) return -1; if (s->kind != SK_UDP) { errno = EINVAL; return -1; } return udp_send(s, b, n, a ? port_of(a) : s->peer_port); }
X ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int fl, sockaddr *a, socklen_t *al) { SYS; Sock *s = fd_get(fd); if (!s) return -1; if (s->kind == SK_TCP) return tcp_read(s, b, n, fl & MSG_DONTWAIT, fl & MSG_PEEK); ssize_t r = udp_recv(s, b, n, fl & MSG_DONTWAIT, a, al); yield_point(); return r; }
X int __wrap_getaddrinfo(const char *, const char *service, const addrinfo *, addrinfo **res) {
  SYS; addrinfo *r = (addrinfo *)calloc(1, sizeof *r); sockaddr_in *in = (sockaddr_in *)calloc(1, sizeof *in); in->sin_family = AF_INET; in->sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (service) in->sin_port = htons((uint16_t)atoi(service));
  r->ai_family = AF_INET; r->ai_socktype = SOCK_STREAM; r->ai_protocol = IPPROTO_TCP; r->ai_addrlen = sizeof *in; r->ai_addr = (sockaddr *)in; *res = r; return 0;
}
X void __wrap_freeaddrinfo(addrinfo *r) { if (r) { free(r->ai_addr); free(r); } }
X int __wrap_fcntl(int fd, int, ...) { SYS; return fd_get(fd) ? 0 : -1; }
static int pollable(Sock *s) { if (s->kind == SK_TCP) return s->e->avail() || s->e->fin || s->e->rst || s->e->shut_rd; if (s->kind == SK_UDP) return !s->dg.empty() || s->shut; if (s->kind == SK_LISTEN) return !s->acceptq.empty() || s->shut; return 1; }
X int __wrap_select(int nfds, fd_set *r, fd_set *, fd_set *, timeval *tv) {
  SYS; i64 end = tv ? now_ns + (i64)tv->tv_sec * SEC_ + (i64)tv->tv_usec * 1000 : FOREVER_T; fd_set out;
  for (;;) { FD_ZERO(&out); int k = 0; for (int i = 0; r && i < nfds; i++) if (FD_ISSET(i, r)) { Sock *s = fd_get(i); if (!s) return -1; if (pollable(s)) { FD_SET(i, &out); k++; } } if (k || now_ns >= end) { if (r) *r = out; return k; } sim_sleep(20 * US, false, "select"); }
}
X int __wrap_poll(pollfd *f, nfds_t n, int ms) {
  SYS; i64 end = ms < 0 ? FOREVER_T : now_ns + (i64)ms * MS;
  for (;;) { int k = 0; for (nfds_t i = 0; i < n; i++) { f[i].revents = 0; Sock *s = fd_get(f[i].fd); if (!s) f[i].revents = POLLNVAL; else if (pollable(s)) f[i].revents = f[i].events & POLLIN; k += f[i].revents != 0; } if (k || now_ns >= end) return k; sim_sleep(20 * US, false, "poll"); }
}
static Rng *rb;
X int __wrap_RAND_bytes(unsigned char *b, int n) { if (!rb) rb = new Rng(mix2(S.seed, 0x4a4d)); heap_check(b, (size_t)n, 1, "RAND_bytes"); for (int i = 0; i < n; i++) b[i] = (unsigned char)rb->next(); return 1; }
}
