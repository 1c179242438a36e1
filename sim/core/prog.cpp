#include "prog.h"
Prog *G; Hist Hs;
std::string ts(const Tag &t) { char b[64]; snprintf(b, sizeof b, "(%ld,%u)", t.t, t.m); return b; }

int Prog::new_reactor(int node) { sp_reactor r = {}; r.parent_mode = -1; r.initial_mode = -1; r.node = node; reactors.push_back(r); return (int)reactors.size() - 1; }
int Prog::new_port(int r, bool out, int width, int ptype) {
  sp_port p = {}; p.reactor = r; p.is_output = out; p.width = width; p.ptype = ptype; p.first_chan = (int)chans.size();
  ports.push_back(p);
  for (int i = 0; i < width; i++) { sp_chan c = {}; c.port = (int)ports.size() - 1; c.idx = i; c.src = -1; chans.push_back(c); dsts.emplace_back(); }
  return (int)ports.size() - 1;
}
int Prog::new_timer(int r, i64 off, i64 per) { timers.push_back({r, off, per, -1}); return (int)timers.size() - 1; }
int Prog::new_action(int r, bool phys, int ptype, i64 d) { sp_action a = {}; a.reactor = r; a.physical = phys; a.ptype = ptype; a.mode = -1; a.min_delay = d; a.min_spacing = -1; a.net_in = -1; actions.push_back(a); return (int)actions.size() - 1; }
int Prog::new_reaction(int r) {
  sp_reaction x = {}; x.reactor = r; x.mode = -1; x.deadline = -1; x.inferred_deadline = INT64_MAX; x.last_enabling = -1; x.net_id = -1;
  int n = 0; for (auto &q : reactions) n += q.reactor == r; x.number = n;
  reactions.push_back(x); trigs.emplace_back(); srcs.emplace_back(); outs.emplace_back(); rules.emplace_back();
  return (int)reactions.size() - 1;
}
static void edges(const Prog &p, std::vector<std::vector<int>> &succ) {
  int n = (int)p.reactions.size(); succ.assign(n, {});
  // same reactor, declared order
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (p.reactions[j].reactor == p.reactions[i].reactor && p.reactions[j].number == p.reactions[i].number + 1) succ[i].push_back(j);
  // data
  std::map<int, std::vector<int>> readers; // input port -> reactions
  for (int j = 0; j < n; j++) { for (auto &t : p.trigs[j]) if (t.kind == TK_INPUT) readers[t.id].push_back(j); for (int s : p.srcs[j]) readers[s].push_back(j); }
  for (int i = 0; i < n; i++) for (int o : p.outs[i]) for (int w = 0; w < p.ports[o].width; w++)
    for (int d : p.dsts[p.ports[o].first_chan + w]) for (int j : readers[p.chans[d].port]) if (std::find(succ[i].begin(), succ[i].end(), j) == succ[i].end()) succ[i].push_back(j);
  // connections between federates without delay
  for (size_t k = 0; k < p.nets.size(); k++) if (!p.nets[k].physical && p.nets[k].delay < 0) { int d = p.net_reaction((int)k, 1); for (int kind : {2, 3}) { int q = p.net_reaction((int)k, kind); if (q >= 0 && d >= 0) succ[q].push_back(d); } }
}
int Prog::net_reaction(int net, int kind) const { for (size_t i = 0; i < reactions.size(); i++) if (reactions[i].net_id == net && reactions[i].net_kind == kind) return (int)i; return -1; }
static bool toposort(const Prog &p, std::vector<int> &order, std::vector<int> &level) {
  std::vector<std::vector<int>> succ; edges(p, succ);
  int n = (int)p.reactions.size(); std::vector<int> indeg(n, 0); level.assign(n, 0); order.clear();
  for (auto &s : succ) for (int j : s) indeg[j]++;
  std::set<int> ready; for (int i = 0; i < n; i++) if (!indeg[i]) ready.insert(i);
  while (!ready.empty()) { int i = *ready.begin(); ready.erase(ready.begin()); order.push_back(i); for (int j : succ[i]) { level[j] = std::max(level[j], level[i] + 1); if (!--indeg[j]) ready.insert(j); } }
  return (int)order.size() == n;
}
bool Prog::acyclic() { std::vector<int> o, l; return toposort(*this, o, l); }
bool Prog::connect(int oc, int ic) {
  if (chans[ic].src >= 0) return false;
  chans[ic].src = oc; dsts[oc].push_back(ic);
  if (!acyclic()) { chans[ic].src = -1; dsts[oc].pop_back(); return false; }
  return true;
}
bool Prog::connect_net(int oc, int ic, i64 delay, bool physical, bool fwd) {
  if (chans[ic].src >= 0) return false;
  Prog save = *this;
  int k = (int)nets.size(), pt = ports[chans[oc].port].ptype, sn = reactors[ports[chans[oc].port].reactor].node, dn = reactors[ports[chans[ic].port].reactor].node;
  int rs = new_reactor(sn), rd = new_reactor(dn), in = new_port(rs, false, 1, pt), out = new_port(rd, true, 1, pt);
  int a = new_action(rd, physical, pt, 0); actions[a].net_in = k;
  sp_net n = {}; n.src_chan = oc; n.src_node = sn; n.dst_node = dn; n.dst_in_port_chan = ic; n.delay = delay; n.physical = physical; n.action = a; n.ptype = pt; n.fwd = fwd && pt == PT_T; n.staa = 0; nets.push_back(n);
  if (!physical) { int y = new_reaction(rs); reactions[y].net_kind = 4; reactions[y].net_id = k; trigs[y].push_back({TK_STARTUP, 0}); }
  int x = new_reaction(rs); reactions[x].net_kind = 2; reactions[x].net_id = k; trigs[x].push_back({TK_INPUT, in});
  if (!physical) { int y = new_reaction(rs); reactions[y].net_kind = 3; reactions[y].net_id = k; srcs[y].push_back(in); }
  int z = new_reaction(rd); reactions[z].net_kind = 1; reactions[z].net_id = k; trigs[z].push_back({TK_ACTION, a}); outs[z].push_back(out);
  int ic2 = ports[in].first_chan, oc2 = ports[out].first_chan;
  chans[ic2].src = oc; dsts[oc].push_back(ic2); chans[ic].src = oc2; dsts[oc2].push_back(ic);
  if (!acyclic()) { *this = save; return false; }
  return true;
}
void Prog::finish_nets(int nf, bool p2p_all) {
  std::vector<std::vector<char>> reach(nf, std::vector<char>(nf, 0));
  for (auto &n : nets) if (!n.physical && n.delay < 0) reach[n.src_node][n.dst_node] = 1;
  for (int k = 0; k < nf; k++) for (int i = 0; i < nf; i++) for (int j = 0; j < nf; j++) if (reach[i][k] && reach[k][j]) reach[i][j] = 1;
  std::vector<int> cnt(nf, 0);
  for (auto &n : nets) { n.port_index = cnt[n.dst_node]++; n.zdc = !n.physical && n.delay < 0 && reach[n.src_node][n.src_node]; n.p2p = n.physical || p2p_all; }
}
i64 Prog::min_phys_out(int node) const {
  i64 best = NEVER_T; std::vector<std::vector<int>> succ; edges(*this, succ);
  for (size_t a = 0; a < actions.size(); a++) if (actions[a].physical && reactors[actions[a].reactor].node == node) {
    std::vector<i64> d(reactions.size(), FOREVER_T); bool ch = true;
    for (size_t x = 0; x < reactions.size(); x++) for (auto &t : trigs[x]) if (t.kind == TK_ACTION && t.id == (int)a) d[x] = actions[a].min_delay;
    while (ch) {
      ch = false;
      for (size_t x = 0; x < reactions.size(); x++) if (d[x] != FOREVER_T) {
        for (int y : succ[x]) if (reactors[reactions[y].reactor].node == node && d[x] < d[y]) { d[y] = d[x]; ch = true; }
        for (auto &ru : rules[x]) if (ru.op >= OP_SCHED_V && ru.op <= OP_SCHED_T_FWD && !actions[ru.a].physical) for (size_t y = 0; y < reactions.size(); y++) for (auto &t : trigs[y]) if (t.kind == TK_ACTION && t.id == ru.a && d[x] + actions[ru.a].min_delay < d[y]) { d[y] = d[x] + actions[ru.a].min_delay; ch = true; }
      }
    }
    for (size_t x = 0; x < reactions.size(); x++) if (d[x] != FOREVER_T && reactions[x].net_kind == 2 && !nets[reactions[x].net_id].physical) { i64 t = d[x]; if (best == NEVER_T || t < best) best = t; }
  }
  return best;
}
void Prog::finish() {
  // group the reactions of a reactor contiguously
  std::vector<int> idx(reactions.size()); for (size_t i = 0; i < idx.size(); i++) idx[i] = (int)i;
  std::stable_sort(idx.begin(), idx.end(), [&](int a, int b) { return std::make_pair(reactions[a].reactor, reactions[a].number) < std::make_pair(reactions[b].reactor, reactions[b].number); });
  { auto r2 = reactions; auto t2 = trigs; auto s2 = srcs; auto o2 = outs; auto u2 = rules;
    for (size_t i = 0; i < idx.size(); i++) { reactions[i] = r2[idx[i]]; trigs[i] = t2[idx[i]]; srcs[i] = s2[idx[i]]; outs[i] = o2[idx[i]]; rules[i] = u2[idx[i]]; } }
  for (size_t r = 0; r < reactors.size(); r++) { reactors[r].first_reaction = -1; reactors[r].n_reactions = 0; }
  for (size_t i = 0; i < reactions.size(); i++) { auto &r = reactors[reactions[i].reactor]; if (r.first_reaction < 0) r.first_reaction = (int)i; r.n_reactions++; }
  std::vector<int> lvl; if (!toposort(*this, topo, lvl)) fail("sim-error", "generated program has a causality cycle");
  std::vector<std::vector<int>> succ; edges(*this, succ);
  n_levels = 1;
  // every federate is compiled by itself: its levels are contiguous
  std::map<int, std::set<int>> used; for (size_t i = 0; i < reactions.size(); i++) used[reactors[reactions[i].reactor].node].insert(lvl[i]);
  for (size_t i = 0; i < reactions.size(); i++) { auto &u = used[reactors[reactions[i].reactor].node]; reactions[i].level = nets.empty() ? lvl[i] : (int)std::distance(u.begin(), u.find(lvl[i])); n_levels = std::max(n_levels, reactions[i].level + 1); }
  // inferred deadlines: minimum over everything downstream
  for (int k = (int)topo.size() - 1; k >= 0; k--) { int i = topo[k]; i64 d = reactions[i].deadline >= 0 ? reactions[i].deadline : INT64_MAX; for (int j : succ[i]) if (reactors[reactions[i].reactor].node == reactors[reactions[j].reactor].node) d = std::min(d, reactions[j].inferred_deadline); reactions[i].inferred_deadline = d; }
  // direct upstream writers; last enabling reaction when there is exactly one upstream reaction (as the compiler does)
  ups.assign(reactions.size(), {});
  std::vector<std::vector<int>> pred(reactions.size());
  for (size_t i = 0; i < reactions.size(); i++) for (int j : succ[i]) if (reactors[reactions[i].reactor].node == reactors[reactions[j].reactor].node) { pred[j].push_back((int)i); if (reactions[i].reactor != reactions[j].reactor) ups[j].push_back((int)i); }
  for (size_t i = 0; i < reactions.size(); i++) {
    // the compiler sets this only for a first reaction with exactly one upstream reaction
    bool only_inputs = true; for (auto &t : trigs[i]) only_inputs &= t.kind == TK_INPUT;
    if (reactions[i].number == 0 && pred[i].size() == 1 && only_inputs) reactions[i].last_enabling = pred[i][0];
  }
  for (size_t i = 0; i < chans.size(); i++) { chans[i].n_dst = (int)dsts[i].size(); chans[i].dst = dsts[i].data(); }
  for (size_t i = 0; i < reactions.size(); i++) {
    auto &r = reactions[i]; r.n_trig = (int)trigs[i].size(); r.trig = trigs[i].data(); r.n_src = (int)srcs[i].size(); r.src = srcs[i].data(); r.n_out = (int)outs[i].size(); r.out = outs[i].data();
  }
  for (size_t r = 0; r < reactors.size(); r++) { int k = 0; for (auto &w : watchdogs) k += w.reactor == (int)r; reactors[r].n_watchdogs = k; }
  sp.n_reactors = (int)reactors.size(); sp.reactors = reactors.data(); sp.n_ports = (int)ports.size(); sp.ports = ports.data(); sp.n_chans = (int)chans.size(); sp.chans = chans.data();
  sp.n_timers = (int)timers.size(); sp.timers = timers.data(); sp.n_actions = (int)actions.size(); sp.actions = actions.data(); sp.n_watchdogs = (int)watchdogs.size(); sp.watchdogs = watchdogs.data();
  sp.n_modes = (int)modes.size(); sp.modes = modes.data(); sp.n_reactions = (int)reactions.size(); sp.reactions = reactions.data(); sp.n_nets = (int)nets.size(); sp.nets = nets.data(); sp.n_levels = n_levels;
}

// ---------------------------------------------------------------- body semantics
static u64 harr1(u64 h, u64 a) { h = (h ^ a) * 1099511628211ULL; h ^= h >> 29; return h; }
u64 payload_hash(u64 v, i64 len, int) {
  u64 h = 1469598103934665603ULL ^ (u64)len; for (i64 i = 0; i < len; i++) h = harr1(h, v + (u64)i * 0x9E3779B97F4A7C15ULL); return h;
}
Body body_eval(const Prog &p, int rid, int kind, Tag rel, u64 state, const std::vector<InV> &in) {
  Body b; u64 h = mix2(state, (u64)rid * 4 + kind);
  h = mix2(h, (u64)rel.t); h = mix2(h, rel.m);
  for (auto &x : in) if (x.present) { h = mix2(h, (u64)x.kind << 32 | (u64)x.id); h = mix2(h, x.has ? x.val : 1); }
  const std::vector<Rule> &rules = kind == WATCHDOG_HANDLER ? p.wrules[rid] : p.rules[rid];
  int rno = 0; u64 sent = 0;
  for (auto &r : rules) {
    rno++;
    u64 hj = mix2(h, (u64)rno * 0x51);
    if (r.mod > 1 && (hj % r.mod) != r.phase % r.mod) continue;
    if (S.drop.size() && S.drop.count(r.name)) continue;
    u64 v = mix2(hj, 0xabcd) | 1;
    sp_op o = {}; o.op = r.op; o.a = r.a; o.b = r.b; o.x = r.x; o.v = v;
    if (rel.m >= 8 && !p.nets.empty() && r.op >= OP_SET_V && r.op <= OP_SET_T_FWD) {   // no endless microsteps through delay-0 connections
      bool z = false; for (auto &n : p.nets) z |= n.src_chan == r.a && n.delay == 0;
      if (z) continue;
    }
    switch (r.op) {
    case OP_SCHED_NONE: case OP_SCHED_V: case OP_SCHED_T_NEW: case OP_SCHED_T_FWD: {
      if (rel.t > p.horizon || rel.m > 12 || (state & 0xff) >= 60) continue;   // keeps the number of events finite
      i64 d = r.x + p.actions[r.a].min_delay;
      if (d == 0 && (int)rel.m >= p.ms_limit) continue;
      if (p.actions[r.a].physical && r.op == OP_SCHED_NONE) { o.op = OP_SCHED_V; }
      if (r.op == OP_SCHED_T_FWD && p.actions[r.a].physical) o.op = OP_SCHED_T_NEW;
      if (o.op == OP_SCHED_T_FWD) {
        int k = -1; for (size_t i = 0; i < in.size(); i++) if (in[i].present && in[i].has && (in[i].kind == TK_ACTION ? p.actions[in[i].id].ptype == PT_T && p.actions[in[i].id].net_in < 0 : p.ports[p.chans[in[i].id].port].ptype == PT_T)) { k = (int)i; break; }
        if (k < 0) { o.op = OP_SCHED_T_NEW; } else { o.b = k; sent |= 1ul << k; }
      }
      break; }
    case OP_SET_T_NEW: o.x = p.big && v % 3 == 0 ? 25 + (i64)(v % 130) : 1 + (i64)(v % 9); break;
    case OP_SET_T_FWD: {
      int k = -1; for (size_t i = 0; i < in.size(); i++) if (in[i].present && in[i].has && (in[i].kind == TK_ACTION ? p.actions[in[i].id].ptype == PT_T && p.actions[in[i].id].net_in < 0 : p.ports[p.chans[in[i].id].port].ptype == PT_T)) { k = (int)i; break; }
      if (k < 0) { o.op = OP_SET_T_NEW; o.b = 0; o.x = 1 + (i64)(v % 9); } else { o.b = k; o.x = (in[k].kind == TK_INPUT && p.ports[p.chans[in[k].id].port].mut && !(sent >> k & 1)) ? r.x : 0; sent |= 1ul << k; }
      break; }
    case OP_STOP: if (rel.t < r.x) continue; break;
    case OP_MODE: if (rel.m > 12 || rel.t > p.horizon) continue; break;   // no endless ping-pong at one time
    case OP_BURN: break;
    case OP_CHECK_DL: if (kind != BODY) continue; break;   // the query is only meaningful in a body
    default: break;
    }
    b.ops.push_back(o);
    if (b.ops.size() >= 60) break;
  }
  b.nstate = (mix2(state, h) & ~0xfful) | std::min<u64>((state & 0xff) + 1, 255);   // the low byte counts the executions
  return b;
}
