// Checks of a federated run.
#include "prog.h"
#include "wire.h"
#include "net.h"
// ---- the loss of one federate
Loss loss;
void loss_draw(Rng &r) {
  loss.kind = (int)C.get("loss"); if (!loss.kind) return;
  int nf = (int)C.get("nf"); loss.fed = (int)r.below(nf); loss.pct = (int)r.below(101);
  if (loss.kind == LOSS_EARLY) { i64 T = std::max<i64>(0, G->timeout); loss.stop = Tag{T == 0 ? 0 : r.range(0, T - 1), 0}; return; }
  if (loss.kind == LOSS_EXIT) { loss.n = r.range(1, r.p(0.5) ? 5 : 40); return; }
  loss.mode = (int)r.below(3);
  if (loss.mode == 0) loss.n = r.range(0, std::max<i64>(1, G->timeout) * 11 / 10); else loss.n = r.range(1, r.p(0.5) ? 6 : 60);
  if (loss.kind == LOSS_RESET && r.p(0.3)) loss.peer = (int)r.below(nf); else loss.peer = nf;
}
static void lose() {
  if (loss.fired) return;
  Node *v = nodes[loss.fed]; if (!v->alive) return;
  loss.fired = true; loss.sim = now_ns;
  if (loss.kind == LOSS_KILL) node_kill(v); else if (!net_reset_between(v, nodes[loss.peer])) loss.fired = false;
}
static bool fed_started() { int n = 0; for (auto &e : wire) n += e.from == (int)C.get("nf") && e.type == W_TIMESTAMP; return n >= C.get("nf"); }
void loss_start(Tag t) { if (fed_started() && (loss.kind == LOSS_KILL || loss.kind == LOSS_RESET) && loss.mode == 0 && !loss.sim) { loss.sim = 1; Node *v = nodes[loss.fed]; timer_at(std::max<i64>(now_ns, t.t - (node_clock(v) - now_ns) + loss.n), lose); } }
i64 loss_write(Node *from, Node *to, size_t n) {
  if (loss.fired || (loss.kind != LOSS_KILL && loss.kind != LOSS_RESET) || loss.mode == 0 || !to) return -1;
  Node *v = nodes[loss.fed]; if (loss.mode == 1 ? from != v : to != v) return -1;
  if (loss.kind == LOSS_RESET && (loss.mode == 1 ? to : from) != nodes[loss.peer]) return -1;
  if (!fed_started() || --loss.n > 0) return -1;
  timer_at(now_ns, lose);
  return (i64)n * loss.pct / 100;
}
bool loss_exit(int node) { if (loss.kind != LOSS_EXIT || node != loss.fed || loss.fired || --loss.n > 0) return false; loss.fired = true; loss.sim = now_ns; return true; }
// Called when no node can make progress any more. Recognises the history of a finding that is on record: a federate with a
// provisional grant waits for the status of a port that is fed by a member of its zero-delay cycle that has left.
void fed_stuck(int nf) {
  int started = 0; for (auto &e : wire) started += e.type == W_TIMESTAMP && e.from == nf;
  if (started < nf) adv_silent();
  // A federate that is cut off from the coordinator waits for it forever. The others must have ended.
  if (loss.fired && loss.kind == LOSS_RESET && nodes[loss.fed]->alive) {
    bool others = false; for (int i = 0; i <= nf; i++) if (i != loss.fed && nodes[i]->alive) others = true;
    if (!others) { nodes[loss.fed]->alive = false; probe(PR_CUT_OFF); check_fed(nf); finish_ok(); }
  }
  std::map<int, size_t> last_grant;
  for (size_t k = 0; k < wire.size(); k++) if (wire[k].from == nf && (wire[k].type == W_TAG || wire[k].type == W_PTAG)) last_grant[wire[k].to] = k;
  for (auto &lg : last_grant) {
    const WireEv &g = wire[lg.second]; if (g.type != W_PTAG) continue;
    if (nodes[g.to]->alive) for (auto &n : G->nets) if (n.zdc && n.dst_node == g.to && (!nodes[n.src_node]->alive || (loss.fired && n.src_node == loss.fed)) && known_finding("zdc-lost-member")) finish_ok();
  }
}
// Checks over the protocol messages of a centrally coordinated federation.
static void check_wire(int nf) {
  auto rel = [&](Tag t) { if (t.t > NEVER_T && t.t < FOREVER_T) t.t -= Hs.start[0]; return ts(t); };
  // common start: not before any proposal
  i64 prop = NEVER_T; for (auto &e : wire) if (e.type == W_TIMESTAMP && e.from < nf) prop = std::max(prop, e.tag.t);
  if (Hs.start[0] < prop) fail("start", "the federation starts at %ld, before the latest time %ld proposed by a federate", Hs.start[0], prop);
  // stop: one outcome, not before any tag that was proposed in time
  const WireEv *grant = nullptr; std::map<int, int> got;
  for (auto &e : wire) if (e.type == W_STOP_GRANT && e.from == nf) {
    if (got[e.to]++) fail("stopgrant", "federate %d was granted a stop twice", e.to);
    if (!grant) grant = &e; else if (e.tag != grant->tag) fail("stopgrant", "stop was granted at %s and at %s", rel(grant->tag).c_str(), rel(e.tag).c_str());
  }
  if (grant) for (auto &e : wire) if ((e.type == W_STOP_REQ || e.type == W_STOP_REPLY) && e.from < nf && e.seq < grant->seq && grant->tag < e.tag) {
    bool gone = e.from == loss.fed; for (auto &x : wire) if (x.type == W_RESIGN && x.from == e.from && x.seq < grant->seq) gone = true;
    if (!gone) fail("stopgrant", "stop was granted at %s although federate %d had proposed %s", rel(grant->tag).c_str(), e.from, rel(e.tag).c_str());
  }
  // grants only advance, and no federate runs a tag that it has not been granted
  if (C.get("decentralized")) return;
  std::vector<char> up(nf, 0); for (auto &n : G->nets) if (!n.physical) up[n.dst_node] = 1;
  struct G1 { u64 seq; Tag tag; };
  std::vector<std::vector<G1>> gr(nf); std::vector<Tag> lt(nf, Tag{NEVER_T, 0}), lp(nf, Tag{NEVER_T, 0});
  for (auto &e : wire) {
    if (e.from != nf || e.to >= nf) continue;
    if (e.type == W_TAG) { if (e.tag <= lt[e.to] || e.tag < lp[e.to]) fail("grant", "federate %d was granted %s after it was granted %s", e.to, rel(e.tag).c_str(), rel(std::max(lt[e.to], lp[e.to])).c_str()); lt[e.to] = e.tag; gr[e.to].push_back({e.seq, e.tag}); }
    if (e.type == W_PTAG) { if (e.tag <= lt[e.to] || e.tag <= lp[e.to]) fail("grant", "federate %d was provisionally granted %s after it was granted %s", e.to, rel(e.tag).c_str(), rel(std::max(lt[e.to], lp[e.to])).c_str()); lp[e.to] = e.tag; gr[e.to].push_back({e.seq, e.tag}); }
    if (e.type == W_TAGGED && (e.tag <= lt[e.to] || e.tag < lp[e.to])) fail("unsafe", "a message with tag %s was sent to federate %d after it was granted %s%s", rel(e.tag).c_str(), e.to, rel(std::max(lt[e.to], lp[e.to])).c_str(), e.tag <= lt[e.to] ? "" : " provisionally");
    if (e.type == W_STOP_GRANT) { Tag b = e.tag; if (b.m-- == 0) b.t--; lt[e.to] = std::min(lt[e.to], b); lp[e.to] = std::min(lp[e.to], b); }
  }
  for (auto &v : Hs.inv) if (v.kind != WATCHDOG_HANDLER && v.node < nf && up[v.node]) {
    Tag t{v.tag.t + Hs.start[v.node], v.tag.m}; bool ok = false;
    for (auto &g : gr[v.node]) { if (g.seq > v.b_seq) break; if (!(g.tag < t)) { ok = true; break; } }
    if (!ok) fail("ungranted", "federate %d ran a reaction at %s, a tag that it was not granted", v.node, ts(v.tag).c_str());
  }
}
// Decentralized coordination: what became of each message, given when it was there.
static void check_dec(const RefOut &ro, std::map<int, std::vector<const NetEv *>> &rx, const std::vector<Tag> &stop) {
  const i64 slack = 5 * MS; bool quiet = !C.get("p_stall_ppm") && !C.get("p_net_eintr_ppm");
  std::map<int, std::vector<const RefMsg *>> sent; for (auto &m : ro.msgs) if (!G->nets[m.net].physical) sent[m.net].push_back(&m);
  std::set<std::pair<int, std::pair<i64, u32>>> at; for (auto &v : Hs.inv) at.insert({v.node, {v.tag.t, v.tag.m}});   // a federate at a tag waits for the port
  for (auto &s : sent) {
    const sp_net &N = G->nets[s.first]; Node *n = nodes[N.dst_node]; auto &arr = arrivals[{N.dst_node, N.port_index}]; auto &r = rx[s.first];
    i64 off = node_clock(n) - now_ns, sta = n->icfg["sta"]; Tag prev{NEVER_T, 0};
    for (size_t k = 0; k < s.second.size(); k++) {
      const RefMsg &m = *s.second[k]; bool got = m.recv.t != FOREVER_T;
      i64 a = k < arr.size() && arr[k].full != FOREVER_T ? arr[k].full + off - Hs.start[0] : FOREVER_T;   // on the receiver's clock, relative to the start time
      if (got && m.recv < m.want) fail("early", "message %zu of connection %d with tag %s was handled at %s", k, s.first, ts(m.want).c_str(), ts(m.recv).c_str());
      if (got && k < r.size() && r[k]->itag != m.want) fail("origtag", "message %zu of connection %d was sent for tag %s but the receiver is told %s", k, s.first, ts(m.want).c_str(), ts(r[k]->itag).c_str());
      if (got && m.want < m.recv) probe(PR_LATE_MSG);
      bool in_time = a != FOREVER_T && a + slack < m.want.t + sta + (N.staa && at.count({N.dst_node, {m.want.t, m.want.m}}) ? N.staa : 0) && prev < m.want;
      // The header alone holds the federate back. It waits for the offset if it has not been told about the port up to the tag before.
      if (a != FOREVER_T && prev < m.want) {
        i64 h = arr[k].head + off - Hs.start[0]; Tag kn = arr[k].known; if (kn.t != NEVER_T) kn.t -= Hs.start[0];
        bool held = h + slack < m.want.t || (m.want.m == 0 && kn.t < m.want.t - 1 && h + slack < m.want.t + sta && m.want != Tag{0, 0});
        if (held && !in_time) probe(PR_HELD_MSG); in_time |= held;
      }
      if (quiet && got && in_time && m.recv != m.want) fail("late", "message %zu of connection %d with tag %s was there at %ld, well before the federate could assume its absence (offset %ld), but was handled at %s", k, s.first, ts(m.want).c_str(), a, sta, ts(m.recv).c_str());
      // (a second message with the same tag comes when the port counts as known up to that tag)
      Tag least = m.want; if (prev.t != NEVER_T && prev.t != FOREVER_T && !(prev < least)) least = Tag{prev.t, prev.m + 1};   // one message per tag and connection
      if (!got && prev.t != FOREVER_T && least <= stop[N.dst_node] && !(stop[N.src_node] < m.sent)) {
        if (quiet && in_time) fail("lost", "message %zu of connection %d with tag %s was there at %ld, in time, but was never handled", k, s.first, ts(m.want).c_str(), a);
        if (quiet && a != FOREVER_T && a + slack < stop[N.dst_node].t + (m.want < stop[N.dst_node] && prev < m.want ? sta : 0)) fail("lost", "message %zu of connection %d with tag %s was there at %ld, before the receiver could reach its stop tag, but was never handled", k, s.first, ts(m.want).c_str(), a);
      }
      if (got) prev = m.recv; else prev = Tag{FOREVER_T, 0};
    }
  }
}
void check_fed(int nf) {
  bool failed_reported = false, lossy = loss.fired && loss.kind != LOSS_EARLY; for (auto &e : wire) if (e.type == W_FAILED && e.to == nf) failed_reported = true;
  if (loss.kind && loss.kind != LOSS_EARLY && !loss.fired) loss.fed = -1;   // it had already ended
  if (lossy) probe(PR_LOSS);
  auto dead = [&](int i) { return lossy && i == loss.fed; };
  if (lossy) for (auto &v : Hs.inv) if (v.node == loss.fed && !v.e_seq) v.e_seq = ~0ull;
  for (int i = 0; i <= nf; i++) {
    Node *n = nodes[i];
    if (n->alive) fail("lost", "node %s never ended", n->name.c_str());
    if (i == loss.fed && loss.kind != LOSS_EARLY) continue;
    if (i == nf && loss.fired && (n->status == 1 || (n->status == 0 && !failed_reported))) continue;
    if (n->status != 0 || (i == nf && failed_reported)) fail("exit", "node %s ended with status %d; last output: %s", n->name.c_str(), n->status, n->log.size() > 300 ? n->log.substr(n->log.size() - 300).c_str() : n->log.c_str());
  }
  for (auto &o : Hs.open) if (!o.second.empty() && !dead(Hs.inv[o.second.back()].node)) fail("lost", "a reaction never finished although the program ended");
  // common start
  if (!Hs.start.count(0)) Hs.start[0] = Hs.start.count(1) ? Hs.start[1] : 0;
  for (int i = 1; i < nf; i++) if (Hs.start.count(i) && Hs.start[i] != Hs.start[0]) fail("start", "federate %d starts at %ld and federate 0 at %ld", i, Hs.start[i], Hs.start[0]);
  check_wire(nf);
  RefIn ri; ri.node = -1; ri.ignore_stop = true;
  for (int i = 0; i < nf; i++) check_order(i);
  for (auto &v : Hs.inv) if (v.kind != WATCHDOG_HANDLER && v.kind != BODY) ri.kinds[{v.rid, {v.tag.t, v.tag.m}}] = v.kind;
  // stop tag
  std::vector<Tag> stop; bool victim_stopped = false;
  for (int i = 0; i < nf; i++) {
    bool seen = false; Tag st{0, 0};
    for (auto &v : Hs.inv) if (v.node == i && G->trigs[v.rid].size() == 1 && G->trigs[v.rid][0].kind == TK_SHUTDOWN && !seen) { st = v.tag; seen = true; }
    if (!seen && !dead(i)) fail("shutdown", "federate %d ended without running its shutdown reactions", i);
    stop.push_back(st);
    if (seen && dead(i)) victim_stopped = true;
  }
  // a federate that had left at the timeout when the others agreed on a stop tag takes no part in the agreement
  std::vector<char> left(nf, 0); u64 granted = ~0ull; bool any_left = false;
  for (auto &e : wire) if (e.type == W_STOP_GRANT && e.from == nf) { granted = e.seq; break; }
  for (auto &e : wire) if (e.type == W_RESIGN && e.from < nf && e.seq < granted && granted != ~0ull && G->timeout >= 0 && stop[e.from] == Tag{loss.kind == LOSS_EARLY && e.from == loss.fed ? loss.stop.t : G->timeout, 0}) left[e.from] = 1;
  if (loss.kind == LOSS_EARLY && stop[loss.fed] == loss.stop) left[loss.fed] = 1;
  if (victim_stopped) left[loss.fed] = 1;
  int f0 = -1;
  for (int i = 0; i < nf; i++) if (!left[i] && !dead(i)) {
    if (f0 < 0) { f0 = i; ri.stop = stop[i]; }
    else if (stop[i] != stop[f0]) fail("stoptag", "federate %d stopped at %s and federate %d at %s", i, ts(stop[i]).c_str(), f0, ts(stop[f0]).c_str());
  }
  if (f0 < 0) ri.stop = stop[loss.fed == 0 ? 1 : 0];
  for (int i = 0; i < nf; i++) if (left[i] && stop[i] != ri.stop) any_left = true;
  if (any_left) probe(PR_LEFT_BEFORE_GRANT);
  Tag agreed = ri.stop, last = ri.stop;   // federates that left early may have stopped at another tag
  Tag lost_at{NEVER_T, 0};
  if (lossy) { for (auto &v : Hs.inv) if (v.node == loss.fed && lost_at < v.tag) lost_at = v.tag; }
  if (G->timeout >= 0 && Tag{G->timeout, 0} < ri.stop) fail("shutdown", "the federation stopped at %s, later than its timeout %ld", ts(ri.stop).c_str(), G->timeout);
  if (G->timeout >= 0 && ri.stop == Tag{G->timeout, 0}) probe(PR_TIMEOUT_STOP); else probe(PR_FEDSTOP);
  ri.has_stop = true;
  if (loss.kind) for (int i = 0; i <= nf; i++) if (!dead(i)) {
    i64 due = std::max(std::max(loss.sim, (i64)0), Hs.start[0] + ri.stop.t - (node_clock(nodes[i]) - now_ns)) + 2 * C.get("clock_spread_ns") + 60 * SEC_ + (i64)wire.size() * 200 * MS;
    if (nodes[i]->exit_time > due) fail("late", "node %s ended %ld ms after the stop tag or the loss of federate %d", nodes[i]->name.c_str(), (nodes[i]->exit_time - due) / MS + 60000, loss.fed);
  }
  for (int i = 0; i < nf; i++) { ri.stop = left[i] ? stop[i] : agreed; check_phys(i, ri, !dead(i)); }
  bool cut = lossy && !victim_stopped && loss.fed >= 0;   // the lost federate did not stop
  if (any_left || cut) for (int i = 0; i < nf; i++) if (cut && i == loss.fed) ri.node_stop[i] = Tag{FOREVER_T, 0}; else { ri.node_stop[i] = left[i] ? stop[i] : agreed; last = std::max(last, ri.node_stop[i]); }
  ri.stop = last;
  for (auto &s : Hs.sched) if (s.by < 0 && ri.phys.count(s.v)) {
    ri.async_ev.push_back({s.v, s.action});
    InV v{TK_ACTION, s.action, true, true, 1, 0, s.v};
    if (G->actions[s.action].ptype == PT_T) { v.len = 1 + (i64)(s.v % 7); for (auto &a : G->async) for (auto &st : a) if (st.v == s.v) v.len = st.len; }
    ri.async_val[s.v] = v;
  }
  ri.dec = C.get("decentralized");
  for (auto &e : Hs.net) if (e.what == NET_RECV && (ri.dec || G->nets[e.net].physical)) ri.netphys[e.net].push_back(e.tag);
  // Messages whose fate is open: from and to a lost federate; from a federate that stopped earlier than the receiver (it sends
  // no messages past its stop tag, but only once it knows it).
  auto touched = [&](const sp_net &n) { return (lossy && (n.src_node == loss.fed || n.dst_node == loss.fed)) || (ri.node_stop.size() && ri.node_stop[n.src_node] < ri.node_stop[n.dst_node]); };
  for (size_t k = 0; k < G->nets.size(); k++) if (touched(G->nets[k]) && !dead(G->nets[k].dst_node) && !G->nets[k].physical) { size_t c = 0; for (auto &e : Hs.net) c += e.what == NET_RECV && e.net == (int)k; ri.net_cap[(int)k] = c; }
  RefOut ro = ref_run(*G, ri);
  // a program that was not asked to stop runs until its timeout
  { Tag lo{FOREVER_T, 0};
    for (auto &s : Hs.stops) { Tag t{0, 0}; if (s.rid >= 0) { for (auto &v : Hs.inv) if (v.node == s.node && v.b_seq < s.s0) t = v.tag; } else for (auto &v : Hs.inv) if (v.node == s.node && v.e_seq && v.e_seq < s.s0) t = v.tag; t.m++; if (t < lo) lo = t; }
    if (agreed < lo && !(G->timeout >= 0 && agreed == Tag{G->timeout, 0})) fail("shutdown", "the federation stopped at %s, before any request to stop (%s) or timeout", ts(agreed).c_str(), ts(lo).c_str());
  }
  for (int i = 0; i < nf; i++) check_compare(i, ro, dead(i) ? &lost_at : nullptr, agreed);
  // messages
  std::map<int, std::vector<const NetEv *>> rx; std::map<int, std::vector<const RefMsg *>> want;
  for (auto &e : Hs.net) if (e.what == NET_RECV && (!dead(G->nets[e.net].dst_node) || !(agreed < e.tag))) rx[e.net].push_back(&e);   // (a lost federate may have been ahead)
  for (auto &m : ro.msgs) if (m.recv.t != FOREVER_T && m.recv <= ro.stop) { auto s = ri.node_stop.find(G->nets[m.net].dst_node), u = ri.node_stop.find(G->nets[m.net].src_node); if ((s == ri.node_stop.end() || m.recv <= s->second) && (u == ri.node_stop.end() || G->nets[m.net].physical || ri.net_cap.count(m.net) || m.recv <= u->second)) want[m.net].push_back(&m); }
  for (size_t k = 0; k < G->nets.size(); k++) {
    auto &a = rx[(int)k]; auto &b = want[(int)k];
    std::sort(b.begin(), b.end(), [](const RefMsg *x, const RefMsg *y) { return x->recv < y->recv; });
    for (size_t i = 0; i < std::min(a.size(), b.size()); i++) {
      if (a[i]->tag != b[i]->recv || a[i]->first != b[i]->first || a[i]->len != b[i]->len) fail("message", "message %zu of connection %zu arrived at %s with first word %lx length %ld, expected %s, %lx, %ld", i, k, ts(a[i]->tag).c_str(), a[i]->first, a[i]->len, ts(b[i]->recv).c_str(), b[i]->first, b[i]->len);
    }
    if (touched(G->nets[k]) ? a.size() > b.size() : a.size() != b.size()) fail("message", "connection %zu delivered %zu messages instead of %zu", k, a.size(), b.size());
  }
  if (ri.dec) check_dec(ro, rx, stop);
  for (int i = 0; i < nf; i++) check_deadlines(i);
}
