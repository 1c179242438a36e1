// Call-backs of the nodes and the checks over the recorded history of unfederated runs.
#include "prog.h"
#include "net.h"
void trace_value(i64 v);
void check_trace(Node *n, int node);
i64 max_clk_read[64], clk_done_max[64];

extern "C" {
#define X __attribute__((visibility("default"), used))
X const sp_prog *sim_prog(void) { return &G->sp; }
X int sim_node(void) { auto i = cur->node->icfg.find("fed"); return i == cur->node->icfg.end() ? 0 : (int)i->second; }
X const char *sim_cfg_str(const char *k) { auto i = cur->node->scfg.find(k); return i == cur->node->scfg.end() ? "" : i->second.c_str(); }
X int64_t sim_cfg_int(const char *k) { auto i = cur->node->icfg.find(k); return i == cur->node->icfg.end() ? 0 : i->second; }
X void sim_fail(const char *cls, const char *msg) { fail(cls, "%s (node %s)", msg, cur->node->name.c_str()); }
}
static u64 clk_seq[2][512]; static i64 clk_val[2][512]; // two most recent clock readings per fiber
void on_clock_read(Node *n, Fiber *f, i64 t) {
  if (t > max_clk_read[n->id]) max_clk_read[n->id] = t;
  int i = f->id & 511; clk_seq[1][i] = clk_seq[0][i]; clk_val[1][i] = clk_val[0][i]; clk_seq[0][i] = gseq; clk_val[0][i] = t;
}
static std::string inv_name(const Inv &v) {
  char b[120];
  static const char *kn[] = {"body", "deadline handler", "STP handler", "watchdog handler"};
  if (v.kind == WATCHDOG_HANDLER) snprintf(b, sizeof b, "watchdog %d at %s", v.rid, ts(v.tag).c_str());
  else snprintf(b, sizeof b, "%s of reaction %d (reactor %d #%d) at %s", kn[v.kind], v.rid, G->reactions[v.rid].reactor, G->reactions[v.rid].number, ts(v.tag).c_str());
  return b;
}
extern "C" {
X void sim_body_begin(sp_call *c) {
  yield_point();
  Fiber *f = cur; Node *n = f->node;
  Inv v; v.node = c->node; v.rid = c->reaction; v.kind = c->kind; v.fiber = f->id; v.state = 0; v.has_itag = false;
  if (!Hs.start.count(c->node)) { Hs.start[c->node] = c->start_time; extern i64 trace_start; trace_start = c->start_time; }
  else if (Hs.start[c->node] != c->start_time) fail("start", "start time of node %d changed", c->node);
  v.tag = Tag{c->tag_time - c->start_time, c->tag_ms};
  v.b_seq = ++gseq; v.e_seq = 0; v.b_clk = node_clock(n); v.b_true = now_ns; v.b_idle = n->idle_ns; v.b_sim = now_ns;
  int i = f->id & 511; int w = n->icfg.count("traced") && n->icfg["traced"] ? 1 : 0;
  v.last_clk = clk_val[w][i]; v.last_clk_seq = clk_seq[w][i];
  if (v.kind != WATCHDOG_HANDLER && !G->fast && !(C.get("clock_jumps") && C.get("threads") == 0) /* relative sleeps */ && std::max({n->max_clock, clk_done_max[n->id], max_clk_read[n->id], v.b_clk}) + (cs_active ? cs_off_max(n) : 0) + 10 * US < c->tag_time)
    fail("ahead", "%s started %ld ns before physical time reached its tag (node %d)", inv_name(v).c_str(), c->tag_time - v.b_clk, c->node);
  for (auto &o : Hs.open) if (o.first != f->id && !o.second.empty()) { if (Hs.inv[o.second.back()].node == v.node) { probe(PR_PARALLEL); } }
  if (v.tag.m) probe(PR_MICROSTEP);
  R->reactions++; progress();
  hash_mix(mix2((u64)v.rid << 8 | (u64)v.kind, mix2((u64)v.tag.t, v.tag.m)));
  LOGV("begin %s node %d", inv_name(v).c_str(), v.node);
  Hs.inv.push_back(v); Hs.open[f->id].push_back((int)Hs.inv.size() - 1);
  // mutual exclusion, checked as it happens
  for (auto &o : Hs.open) if (o.first != f->id) for (int k : o.second) {
    Inv &q = Hs.inv[k]; if (q.node != v.node || q.e_seq) continue;
    int rq = q.kind == WATCHDOG_HANDLER ? G->watchdogs[q.rid].reactor : G->reactions[q.rid].reactor, rv = v.kind == WATCHDOG_HANDLER ? G->watchdogs[v.rid].reactor : G->reactions[v.rid].reactor;
    if (rq == rv) fail("overlap", "%s starts while %s of the same reactor is running", inv_name(v).c_str(), inv_name(q).c_str());
    if (q.kind != WATCHDOG_HANDLER && v.kind != WATCHDOG_HANDLER && q.tag != v.tag) fail("overlap", "%s starts while %s is still running", inv_name(v).c_str(), inv_name(q).c_str());
  }
  yield_point();
}
X int sim_body(sp_call *c, sp_op *ops, int max_ops, uint64_t *ns) {
  Fiber *f = cur; Inv &v = Hs.inv[Hs.open[f->id].back()];
  v.state = c->state;
  for (int i = 0; i < c->n_in; i++) {
    sp_in &x = c->in[i]; InV y = {x.kind, x.id, x.present != 0, x.has_value != 0, x.has_value ? x.len : 0, x.has_value ? x.val : 0, x.has_value ? x.first : 0};
    if (!y.present) { y.has = false; y.len = 0; y.val = y.first = 0; }
    v.in.push_back(y); hash_mix(mix2(y.present, y.val));
    if (S.verbose && y.present) LOGV("   input %s %d value %016lx first %lx len %ld", y.kind == TK_ACTION ? "action" : "channel", y.id, y.val, y.first, y.len);
    if (x.itag_time || x.itag_ms) { if (x.kind == TK_ACTION && x.present && G->actions[x.id].net_in >= 0) { v.itag = Tag{x.itag_time - Hs.start[v.node], x.itag_ms}; v.has_itag = true; } }
  }
  Body b = body_eval(*G, v.rid, v.kind, v.tag, v.kind == WATCHDOG_HANDLER ? v.state ^ mix64(v.b_seq) << 8 : v.state, v.in);
  if (v.kind == WATCHDOG_HANDLER) b.nstate = v.state;   // the reference does not know when handlers run
  int n = 0;
  for (auto &o : b.ops) {
    if (n >= max_ops) break;
    if (o.op == OP_SCHED_V || o.op == OP_SCHED_T_NEW || o.op == OP_SET_T_NEW) Hs.payloads[o.v] = 1;
    if (o.op == OP_SET_T_FWD) { probe(PR_TOKEN_FWD); if (o.x) { Hs.payloads[v.in[o.b].first + o.v] = 1; probe(PR_WCOPY); } }
    if (o.op == OP_STOP) probe(PR_STOP_REQ);
    ops[n++] = o;
    if (S.verbose) LOGV("   op %d a=%d b=%d x=%ld v=%lx", o.op, o.a, o.b, o.x, o.v);
  }
  *ns = b.nstate; v.nstate = b.nstate;
  if (v.kind == DEADLINE_HANDLER) probe(PR_DL_HANDLER); else if (v.kind == BODY && G->reactions[v.rid].deadline >= 0) probe(PR_DL_BODY);
  yield_point();
  return n;
}
X int sim_exit_now(int node) { return loss_exit(node); }
X void sim_body_end(sp_call *) {
  yield_point();
  Fiber *f = cur; auto &st = Hs.open[f->id]; Inv &v = Hs.inv[st.back()]; st.pop_back();
  v.e_seq = ++gseq; v.e_clk = node_clock(f->node); v.e_sim = now_ns; v.e_idle = f->node->idle_ns;
  LOGV("end %s", inv_name(v).c_str());
}
// Every reading of physical time: never below a reading that was complete before it began, never off the system clock.
static i64 clk_raw_max[64]; static u64 clk_reads[64]; static bool clk_init;
static std::map<int, std::pair<i64, i64>> clk_open; static std::map<int, i64> clk_sim0;
X void sim_clock(int done, int64_t v) {
  Node *n = cur->node; int k = n->id;
  if (!clk_init) { clk_init = true; for (auto &x : clk_done_max) x = NEVER_T; for (auto &x : clk_raw_max) x = NEVER_T; }
  i64 raw = node_clock(n); clk_raw_max[k] = std::max(clk_raw_max[k], std::max(raw, n->max_clock));
  if (!done) { clk_open[cur->id] = {clk_done_max[k], raw}; clk_sim0[cur->id] = now_ns; return; }
  auto o = clk_open[cur->id]; clk_reads[k]++;
  if (v < o.first) fail("clock", "physical time read as %ld after an earlier reading had returned %ld (%ld ns later)", v, o.first, o.first - v);
  bool fresh = v > clk_done_max[k] + 1;
  clk_done_max[k] = std::max(clk_done_max[k], v);
  if (n->icfg.count("clock_sync") && n->icfg["clock_sync"] > 1) { if (fresh) cs_reading(n, v, o.second, raw, clk_sim0[cur->id]); return; }
  bool jumped = C.get("clock_jumps") || C.get("skew");
  if (v > clk_raw_max[k] + (i64)(jumped ? clk_reads[k] : 64)) fail("clock", "physical time read as %ld, ahead of the system clock by %ld ns", v, v - clk_raw_max[k]);
  if (!jumped && v < o.second) fail("clock", "physical time read as %ld, behind the system clock by %ld ns", v, o.second - v);
}
X void sim_burn(int64_t ns) { sim_sleep(ns, true, "burn"); }
X void sim_note(int code, int64_t a, int64_t b, int64_t c) {
  Node *n = cur->node; int nid = sim_node();
  switch (code) {
  case NOTE_STOP_CALL: { LOGV("stop requested by %s", a < 0 ? "a thread" : "a reaction"); StopCall s; s.node = nid; s.rid = (int)a; s.fiber = cur->id; s.s0 = ++gseq; s.s1 = 0; s.at = Tag{0, 0}; Hs.stops.push_back(s); break; }
  case NOTE_STOP_RET: for (size_t i = Hs.stops.size(); i-- > 0;) if (Hs.stops[i].fiber == cur->id && !Hs.stops[i].s1) { Hs.stops[i].s1 = ++gseq; Hs.stops[i].idle1 = n->idle_ns; Hs.stops[i].c1 = node_clock(n); break; } break;
  case NOTE_WD_START: case NOTE_WD_STOP: Hs.wd.push_back(WdNote{code, (int)a, b, c, ++gseq, node_clock(n), n->idle_ns}); LOGV("watchdog %ld %s (until %ld)", a, code == NOTE_WD_START ? "start" : "stop", code == NOTE_WD_START ? b - Hs.start[nid] : 0); break;
  case NOTE_SYNCED: cs_synced(n); break;
  case NOTE_TRACE_VALUE: trace_value(a); break;
  default: break;
  }
}
X void sim_sched_call(int action, uint64_t payload, int64_t extra, int after) {
  if (!after) {
    SchedCall s = {}; s.node = sim_node(); s.action = action; s.fiber = cur->id; s.v = payload; s.extra = std::max<int64_t>(extra, 0); s.s0 = ++gseq; s.c0 = node_clock(cur->node); s.by = Hs.open[cur->id].empty() ? -1 : Hs.open[cur->id].back();
    Hs.sched.push_back(s); LOGV("schedule action %d payload %lx extra %ld", action, payload, extra);
  } else for (size_t i = Hs.sched.size(); i-- > 0;) if (Hs.sched[i].fiber == cur->id && !Hs.sched[i].s1) { Hs.sched[i].s1 = ++gseq; Hs.sched[i].c1 = node_clock(cur->node); Hs.sched[i].idle1 = cur->node->idle_ns; break; }
}
X void sim_net_event(int what, int net, int64_t tt, uint32_t tm, int64_t len, uint64_t hash, uint64_t first, int64_t it, uint32_t im) {
  int nid = sim_node(); i64 st = Hs.start.count(nid) ? Hs.start[nid] : 0;
  NetEv e{what, net, nid, cur->id, Tag{tt, tm}, len, hash, first, Tag{it, im}, ++gseq, node_clock(cur->node), now_ns}; (void)st;
  static const char *wn[] = {"send", "sent", "receive", "absent"};
  LOGV("net %d %s at %s len %ld first %lx", net, wn[what], ts(e.tag).c_str(), len, first);
  if (what == NET_RECV) { probe(PR_NET_MSG); if (G->nets[net].p2p) probe(PR_P2P); } if (what == NET_ABSENT) probe(PR_ABSENT);
  hash_mix(mix2((u64)net * 8 + what, mix2((u64)tt, tm))); progress();
  Hs.net.push_back(e);
}
X int sim_async_next(int thread, int64_t *wait, int *op, int *action, int64_t *extra, uint64_t *v, int64_t *len) {
  static std::map<std::pair<int, int>, size_t> pos;
  int nid = sim_node(); int k = -1, seen = 0;
  for (size_t i = 0; i < G->async.size(); i++) if (G->async_node[i] == nid) { if (seen++ == thread) { k = (int)i; break; } }
  if (k < 0) return 0;
  for (;;) {
    size_t &i = pos[{nid, thread}];
    if (i >= G->async[k].size()) return 0;
    AsyncStep &s = G->async[k][i]; i++;
    if (S.drop.size() && S.drop.count("async" + std::to_string(k) + "." + std::to_string(i - 1))) continue;
    *wait = s.wait; *op = s.op >= 100 ? s.op - 100 : s.op; *action = s.action; *extra = s.extra; *v = s.v; *len = s.len;
    Hs.payloads[s.v] = 1; probe(PR_ASYNC);
    return 1;
  }
}
}

// ---------------------------------------------------------------- post-run checks
bool sim_payload_leak(Node *n, u64 *first, u32 *size);

void check_order(int node) {
  // tags, mutual exclusion, dependency order
  std::map<int, const Inv *> lastr; std::map<int, std::map<int, const Inv *>> at;
  Tag curt{-1, 0}; bool have = false; u64 max_end = 0;
  std::map<int, const Inv *> in_tag;
  for (auto &v : Hs.inv) {
    if (v.node != node || v.kind == WATCHDOG_HANDLER) continue;
    if (!v.e_seq) fail("lost", "%s never finished", inv_name(v).c_str());
    if (!have || v.tag != curt) {
      if (have && !(curt < v.tag)) fail("order", "%s runs after tag %s was processed", inv_name(v).c_str(), ts(curt).c_str());
      if (have && v.b_seq < max_end) fail("order", "%s starts before every reaction at %s has finished", inv_name(v).c_str(), ts(curt).c_str());
      curt = v.tag; have = true; in_tag.clear(); R->tags++;
    }
    max_end = std::max(max_end, v.e_seq);
    if (in_tag.count(v.rid)) fail("twice", "%s ran twice", inv_name(v).c_str());
    for (auto &q : in_tag) {
      const sp_reaction &a = G->reactions[q.first], &b = G->reactions[v.rid];
      if (a.reactor == b.reactor && a.number > b.number) fail("order", "%s ran after %s", inv_name(v).c_str(), inv_name(*q.second).c_str());
      if (a.reactor == b.reactor && q.second->e_seq > v.b_seq) fail("overlap", "%s overlaps %s", inv_name(v).c_str(), inv_name(*q.second).c_str());
    }
    in_tag[v.rid] = &v;
    for (auto &q : in_tag) if (q.first != v.rid) {
      if (std::find(G->ups[v.rid].begin(), G->ups[v.rid].end(), q.first) != G->ups[v.rid].end() && q.second->e_seq > v.b_seq) fail("order", "%s started before the upstream %s finished", inv_name(v).c_str(), inv_name(*q.second).c_str());
      if (std::find(G->ups[q.first].begin(), G->ups[q.first].end(), v.rid) != G->ups[q.first].end()) fail("order", "%s started before the upstream %s", inv_name(*q.second).c_str(), inv_name(v).c_str());
    }
  }
}
void check_deadlines(int node) {
  std::map<int, u64> tag_end; Tag t{-1, 0};
  for (size_t i = 0; i < Hs.inv.size(); i++) {
    auto &v = Hs.inv[i]; if (v.node != node || v.kind == WATCHDOG_HANDLER || v.kind == STP_HANDLER) continue;
    i64 d = G->reactions[v.rid].deadline; i64 abs_t = v.tag.t + Hs.start[node];
    if (v.kind == DEADLINE_HANDLER) {
      if (d < 0) fail("deadline", "%s ran but the reaction has no deadline", inv_name(v).c_str());
      if (d > 0 && std::max(v.b_clk, nodes[node]->max_clock) <= abs_t + d) fail("deadline", "%s ran %ld ns before the deadline expired", inv_name(v).c_str(), abs_t + d - v.b_clk);
    } else if (d >= 0) {
      if (d == 0) fail("deadline", "%s ran although its deadline is zero", inv_name(v).c_str());
      if (v.last_clk > abs_t + d) fail("deadline", "%s ran although it started %ld ns after its deadline", inv_name(v).c_str(), v.last_clk - abs_t - d);
      if (v.b_clk > abs_t + d) for (size_t k = 0; k < i; k++) {
        auto &u = Hs.inv[k]; if (u.node != node || u.kind == WATCHDOG_HANDLER || u.tag != v.tag) continue;
        bool before = u.fiber == v.fiber || G->reactions[u.rid].reactor == G->reactions[v.rid].reactor || std::find(G->ups[v.rid].begin(), G->ups[v.rid].end(), u.rid) != G->ups[v.rid].end();
        if (before && v.last_clk_seq < u.e_seq) fail("deadline", "%s ran although it started %ld ns after its deadline (physical time was last read before %s ended)", inv_name(v).c_str(), v.b_clk - abs_t - d, inv_name(u).c_str());
      }
    }
  }
}
static void check_lateness(int node, i64 slack, Tag stop) {
  if (G->fast) return;
  i64 prev_end_clk = 0, prev_idle = 0; Tag t{-1, 0}; bool have = false;
  i64 end_clk = 0, end_idle = 0;
  for (auto &v : Hs.inv) {
    if (v.node != node || v.kind == WATCHDOG_HANDLER) continue;
    if (!have || v.tag != t) {
      if (have) {
        prev_end_clk = end_clk; prev_idle = end_idle;
        for (auto &s : Hs.stops) if (s.node == node && s.rid < 0 && v.tag == stop && s.s0 < v.b_seq) {
          // a request that had not yet returned says nothing about when its effect had to start
          if (!s.s1 || s.s1 > v.b_seq) { prev_idle = v.b_idle; prev_end_clk = v.b_clk; }
          else if (s.idle1 > prev_idle) { prev_idle = s.idle1; prev_end_clk = s.c1; }
        }
        i64 abs_t = v.tag.t + Hs.start[node]; i64 legit = std::max<i64>(0, abs_t - prev_end_clk), idle = v.b_idle - prev_idle;
        if (idle > legit + slack) fail("late", "%s started %ld ns of idle time after physical time had reached it", inv_name(v).c_str(), idle - legit);
      }
      have = true; t = v.tag;
    }
    if (v.e_idle >= end_idle) { end_idle = v.e_idle; end_clk = std::max(end_clk, v.e_clk); }
  }
}
std::string show_in(const InV &x) { char b[120]; snprintf(b, sizeof b, "%s %d %s len %ld first %lx", x.kind == TK_ACTION ? "action" : "channel", x.id, x.present ? x.has ? "value" : "present" : "absent", x.len, x.first); return b; }

// lost_at: the node disappeared at this tag, which it may not have finished
void check_compare(int node, const RefOut &ro, const Tag *lost_at, Tag agreed) {
  std::map<Tag, std::map<int, const Inv *>> obs; std::map<Tag, std::map<int, const RefInv *>> ref;
  for (auto &v : Hs.inv) if (v.node == node && v.kind != WATCHDOG_HANDLER) obs[v.tag][v.rid] = &v;
  for (auto &v : ro.inv) if (G->reactors[G->reactions[v.rid].reactor].node == node) ref[v.tag][v.rid] = &v;
  std::set<Tag> all; for (auto &x : obs) all.insert(x.first); for (auto &x : ref) all.insert(x.first);
  for (auto &t : all) {
    if (lost_at && (*lost_at < t || (agreed <= *lost_at && !(t < agreed)))) break;
    auto &o = obs[t]; auto &r = ref[t];
    if (!lost_at || t < *lost_at) for (auto &x : r) if (!o.count(x.first)) fail("missing", "node %d: reaction %d (reactor %d #%d) should have run at %s but did not (stop tag %s)", node, x.first, G->reactions[x.first].reactor, G->reactions[x.first].number, ts(t).c_str(), ts(ro.stop).c_str());
    for (auto &x : o) if (!r.count(x.first) && !(lost_at && x.second->e_seq == ~0ull)) fail("extra", "node %d: %s ran but should not have (stop tag %s)", node, inv_name(*x.second).c_str(), ts(ro.stop).c_str());
    for (int i : G->topo) {
      auto a = o.find(i); if (a == o.end()) continue; auto b = r.find(i); if (lost_at && a->second->e_seq == ~0ull) continue;   // it had only begun
      const Inv &u = *a->second; const RefInv &w = *b->second;
      if (u.kind != w.kind) fail("extra", "node %d: %s: another kind of handler was expected", node, inv_name(u).c_str());
      if (u.state != w.state) fail("state", "node %d: %s sees a wrong reactor state", node, inv_name(u).c_str());
      if (u.in.size() != w.in.size()) fail("sim-error", "input list mismatch");
      for (size_t k = 0; k < u.in.size(); k++) {
        auto &p = u.in[k]; auto &q = w.in[k];
        if (p.present != q.present || (p.present && (p.has != q.has || (p.has && (p.len != q.len || p.val != q.val)))))
          fail("input", "node %d: %s read [%s], expected [%s]", node, inv_name(u).c_str(), show_in(p).c_str(), show_in(q).c_str());
      }
    }
  }
}
void check_phys(int node, RefIn &ri, bool exact) {
  // observed tags of physical events
  for (auto &v : Hs.inv) if (v.node == node && v.kind != WATCHDOG_HANDLER) for (auto &x : v.in) if (x.kind == TK_ACTION && x.present && x.has && G->actions[x.id].physical && G->actions[x.id].net_in < 0) {
    auto i = ri.phys.find(x.first);
    if (i == ri.phys.end()) ri.phys[x.first] = v.tag;
    else if (i->second != v.tag) fail("twice", "physical event of action %d handled at %s and again at %s", x.id, ts(i->second).c_str(), ts(v.tag).c_str());
    bool known = false; for (auto &s : Hs.sched) if (s.v == x.first && s.action == x.id) known = true;
    if (!known) fail("extra", "action %d is present at %s with a payload nobody scheduled", x.id, ts(v.tag).c_str());
    probe(PR_PHYS);
  }
  if (!exact) return;
  Tag stop = ri.stop; i64 st = Hs.start[node];
  std::map<std::pair<int, int>, const SchedCall *> prev;
  for (auto &s : Hs.sched) {
    if (s.node != node || !G->actions[s.action].physical || G->actions[s.action].net_in >= 0) continue;
    bool triggers = false; for (auto &t : G->trigs) for (auto &x : t) triggers |= x.kind == TK_ACTION && x.id == s.action;
    if (!triggers) continue;
    i64 d = G->actions[s.action].min_delay + s.extra; auto i = ri.phys.find(s.v);
    if (i == ri.phys.end()) {
      if (s.s1 && s.c1 + d + 10 * US < stop.t + st) fail("lost", "an event of physical action %d scheduled between %ld and %ld (plus delay %ld) was never handled; the program stopped at %s", s.action, s.c0 - st, s.c1 - st, d, ts(stop).c_str());
      if (s.by < 0) probe(PR_ASYNC_LOST);
    } else {
      i64 t = i->second.t + st;
      if (t < s.c0 + d) fail("backdated", "an event of physical action %d got tag %s, earlier than physical time %ld plus delay %ld", s.action, ts(i->second).c_str(), s.c0 - st, d);
      if (s.s1 && t > std::max(s.c1, s.c0) + d + 10 * US) fail("postdated", "an event of physical action %d got tag %s, later than physical time %ld plus delay %ld", s.action, ts(i->second).c_str(), s.c1 - st, d);
      u64 first_b = 0; for (auto &v : Hs.inv) if (v.node == node && v.tag == i->second) { first_b = v.b_seq; break; }
      if (first_b && first_b < s.s0) fail("backdated", "an event of physical action %d was put at tag %s which was already being processed", s.action, ts(i->second).c_str());
    }
    auto k = std::make_pair(s.fiber, s.action); auto q = prev.find(k);
    if (q != prev.end() && q->second->extra <= s.extra && i != ri.phys.end()) {
      auto j = ri.phys.find(q->second->v);
      if (j == ri.phys.end()) fail("lost", "the earlier of two events of physical action %d scheduled by one thread was lost", s.action);
      if (!(j->second < i->second)) fail("order", "two events of physical action %d scheduled by one thread are handled in the wrong order (%s, %s)", s.action, ts(j->second).c_str(), ts(i->second).c_str());
    }
    prev[k] = &s;
  }
}
void check_watchdogs(int node);
void check_local(int node) {
  Node *n = nodes[node];
  bool jumps = C.get("clock_jumps");
  if (n->status != 0) fail("exit", "node %s ended with status %d; last output: %s", n->name.c_str(), n->status, n->log.size() > 300 ? n->log.substr(n->log.size() - 300).c_str() : n->log.c_str());
  for (auto &o : Hs.open) if (!o.second.empty()) fail("lost", "%s never finished although the program ended", inv_name(Hs.inv[o.second.back()]).c_str());
  check_order(node);
  RefIn ri; ri.node = -1;
  for (auto &v : Hs.inv) if (v.node == node && v.kind != WATCHDOG_HANDLER && v.kind != BODY) ri.kinds[{v.rid, {v.tag.t, v.tag.m}}] = v.kind;
  // observed stop tag
  bool seen = false;
  for (auto &v : Hs.inv) if (v.node == node && v.kind != WATCHDOG_HANDLER && G->trigs[v.rid].size() == 1 && G->trigs[v.rid][0].kind == TK_SHUTDOWN && G->reactors[G->reactions[v.rid].reactor].parent_mode < 0 && G->reactions[v.rid].mode < 0) { if (!seen) { ri.stop = v.tag; seen = true; } }
  if (!seen) fail("shutdown", "the program ended without running its shutdown reactions");
  if (G->timeout >= 0 && Tag{G->timeout, 0} < ri.stop) fail("shutdown", "the program stopped at %s, later than its timeout %ld", ts(ri.stop).c_str(), G->timeout);
  if (G->timeout >= 0 && ri.stop == Tag{G->timeout, 0}) probe(PR_TIMEOUT_STOP);
  check_phys(node, ri, !jumps);
  bool astop = false;
  for (auto &s : Hs.stops) if (s.node == node && s.rid < 0) {
    astop = true;
    Tag hi{FOREVER_T, 0};
    for (auto &v : Hs.inv) if (v.node == node && v.kind != WATCHDOG_HANDLER && s.s1 && v.b_seq > s.s1) { hi = Tag{v.tag.t, v.tag.m + 1}; break; }
    if (s.s1 && hi < ri.stop) fail("shutdown", "a stop request that had returned before tag %s started stopped the program only at %s", ts(hi).c_str(), ts(ri.stop).c_str());
  }
  if (astop) ri.has_stop = true;
  std::set<u64> byasync;
  for (auto &s : Hs.sched) if (s.node == node && (s.by < 0 || Hs.inv[s.by].kind == WATCHDOG_HANDLER) && ri.phys.count(s.v)) {
    ri.async_ev.push_back({s.v, s.action});
    InV v{TK_ACTION, s.action, true, true, 1, 0, s.v};
    if (G->actions[s.action].ptype == PT_T) {
      v.len = 1 + (i64)(s.v % 7);
      if (s.by < 0) for (auto &a : G->async) for (auto &st : a) if (st.v == s.v) v.len = st.len;
    }
    ri.async_val[s.v] = v;
  }
  RefOut ro = ref_run(*G, ri);
  if (astop) {
    // the stop tag follows from the request or from the program itself
    RefIn r2 = ri; r2.has_stop = false; RefOut r3 = ref_run(*G, r2);
    if (r3.stop != ri.stop || r3.capped) {
      bool ok = false;
      for (auto &s : Hs.stops) if (s.node == node && s.rid < 0) {
        Tag lo{0, 0}; for (auto &v : Hs.inv) if (v.node == node && v.kind != WATCHDOG_HANDLER && v.b_seq < s.s0) lo = v.tag;
        lo.m++; if (lo <= ri.stop) ok = true;
      }
      if (!ok) fail("shutdown", "the program stopped at %s, before the tag at which a stop was requested", ts(ri.stop).c_str());
    }
  }
  check_compare(node, ro);
  if (ro.stop != ri.stop) fail("shutdown", "the program stopped at %s instead of %s", ts(ri.stop).c_str(), ts(ro.stop).c_str());
  check_deadlines(node);
  if (!jumps) check_lateness(node, 60 * US, ri.stop);
  if (!G->watchdogs.empty()) check_watchdogs(node);
}
void check_watchdogs(int node) {
  Node *n = nodes[node];
  u64 shut_seq = ~0ull; i64 shut_clk = 0, shut_idle = 0;
  for (auto &v : Hs.inv) if (v.node == node && v.kind != WATCHDOG_HANDLER) { if (v.e_seq) { shut_clk = v.b_clk; shut_idle = v.b_idle; shut_seq = v.b_seq; } }
  for (size_t w = 0; w < G->watchdogs.size(); w++) {
    if (G->reactors[G->watchdogs[w].reactor].node != node) continue;
    // notes and handler starts of this watchdog in the order in which they happened (all under the reactor's mutex)
    struct Ev { u64 seq; int what; const WdNote *n; const Inv *v; };
    std::vector<Ev> ev;
    for (auto &x : Hs.wd) if (x.wd == (int)w) ev.push_back({x.seq, x.kind, &x, nullptr});
    for (auto &v : Hs.inv) if (v.node == node && v.kind == WATCHDOG_HANDLER && v.rid == (int)w) ev.push_back({v.b_seq, -1, nullptr, &v});
    std::sort(ev.begin(), ev.end(), [](const Ev &a, const Ev &b) { return a.seq < b.seq; });
    const WdNote *armed = nullptr; const char *why = "it was never started";
    auto lost = [&](i64 idle, i64 clk, const char *until) {
      i64 legit = std::max<i64>(0, armed->hi - armed->clk), waited = idle - armed->idle;
      if (waited > legit + 60 * US && clk > armed->hi) fail("lost", "watchdog %zu expired at %ld but its handler had not run %s, %ld ns of idle time later", w, armed->a - Hs.start[node], until, waited - legit);
    };
    for (auto &e : ev) {
      if (e.what == NOTE_WD_START) { if (armed) lost(e.n->idle, e.n->clk, "when it was started again"); armed = e.n; }
      else if (e.what == NOTE_WD_STOP) { if (armed) lost(e.n->idle, e.n->clk, "when it was stopped"); if (armed) probe(PR_WD_STOP); armed = nullptr; why = "it was stopped"; }
      else {
        probe(PR_WD_FIRE);
        if (!armed) fail("watchdog", "the handler of watchdog %zu ran although %s", w, why);
        if (e.v->b_clk < armed->a) fail("watchdog", "the handler of watchdog %zu ran %ld ns before its expiration", w, armed->a - e.v->b_clk);
        lost(e.v->b_idle, e.v->b_clk, "until");
        armed = nullptr; why = "it had already run for its last start";
      }
    }
    if (armed && armed->seq < shut_seq) lost(shut_idle, shut_clk, "when the program ended");
  }
  (void)n;
}
