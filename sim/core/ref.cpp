// Sequential reference interpreter of a program (the oracle).
#include "prog.h"

struct Pay { bool has; i64 len; u64 first; bool late = false; };
static InV mkin(int kind, int id, const Pay *p) {
  InV x = {kind, id, false, false, 0, 0, 0};
  if (p) { x.present = true; x.has = p->has; if (p->has) { x.len = p->len; x.first = p->first; x.val = payload_hash(p->first, p->len, 0); } }
  return x;
}
struct RefRun {
  const Prog &p; const RefIn &in; RefOut out;
  std::map<Tag, std::map<std::pair<int, int>, Pay>> q;         // tag -> (kind,id) -> payload
  std::vector<u64> state; std::vector<Tag> last; Tag stop{FOREVER_T, 0}; Tag cur{0, 0};
  std::map<int, Pay> chan;                                     // present channels (outputs)
  std::map<int, Pay> act;                                      // present actions
  // modes
  std::vector<int> mode_cur, mode_next, mode_type; std::vector<char> mode_started;
  struct Susp { int kind, id; Pay pay; Tag rel; };             // rel: remaining local delay
  std::vector<Susp> susp; std::vector<char> need_startup, need_reset;
  bool pend = false, modal = false;
  std::set<int> stp;                                           // reactions triggered, directly or not, by a late message
  RefRun(const Prog &p_, const RefIn &i_) : p(p_), in(i_) {}
  bool mine(int r) { return in.node < 0 || p.reactors[r].node == in.node; }
  bool mode_active(int m) { // global mode index
    while (m >= 0) { int r = p.modes[m].reactor; if (mode_cur[r] != m) return false; m = p.reactors[r].parent_mode; }
    return true;
  }
  int reaction_mode(int i) { int m = p.reactions[i].mode; return m >= 0 ? m : p.reactors[p.reactions[i].reactor].parent_mode; }
  int timer_mode(int i) { int m = p.timers[i].mode; return m >= 0 ? m : p.reactors[p.timers[i].reactor].parent_mode; }
  int action_mode(int i) { int m = p.actions[i].mode; return m >= 0 ? m : p.reactors[p.actions[i].reactor].parent_mode; }
  void put(Tag t, int kind, int id, Pay pay) { q[t][{kind, id}] = pay; }
  bool exists(Tag t, int kind, int id) { auto i = q.find(t); return i != q.end() && i->second.count({kind, id}); }

  void schedule(int a, i64 extra, Pay pay) {
    if (stop < cur) return;
    const sp_action &A = p.actions[a];
    i64 d = std::max<i64>(extra, 0) + A.min_delay;
    if (A.physical && !in.prerun) {
      auto it = in.phys.find(pay.first);
      if (it == in.phys.end()) { out.lost[pay.first] = cur; return; }
      if (stop < it->second) return;
      put(it->second, TK_ACTION, a, pay); return;
    }
    Tag t = delay_tag(cur, d);
    if (A.min_spacing > 0 && last[a].t != NEVER_T) {
      i64 earliest = last[a].t + A.min_spacing;
      if (earliest > t.t) {
        if (A.policy == POL_DROP) { if (!in.prerun) probe(PR_DROP); return; }
        if (A.policy == POL_REPLACE && exists(last[a], TK_ACTION, a)) { if (!in.prerun) probe(PR_REPLACE); put(last[a], TK_ACTION, a, pay); return; }
        if (!in.prerun) probe(PR_DEFER);
        t = Tag{earliest, 0};
      }
    }
    while (exists(t, TK_ACTION, a)) t.m++;
    if (t == cur) t.m++;
    last[a] = t;
    if (stop < t) return;
    put(t, TK_ACTION, a, pay);
  }
  void set_chan(int c, Pay pay, std::set<int> &trig) {
    chan[c] = pay;
    (void)trig;
  }
  RefOut run() {
    size_t n = p.reactions.size();
    state.resize(p.reactors.size()); last.assign(p.actions.size(), Tag{NEVER_T, 0});
    for (size_t i = 0; i < p.reactors.size(); i++) state[i] = (u64)p.reactors[i].init_state;
    mode_cur.assign(p.reactors.size(), -1); mode_next.assign(p.reactors.size(), -1); mode_type.assign(p.reactors.size(), 0);
    for (size_t i = 0; i < p.reactors.size(); i++) if (p.reactors[i].n_modes > 0) { mode_cur[i] = p.reactors[i].initial_mode; modal = true; }
    mode_started.assign(p.modes.size(), 0); need_startup.assign(p.modes.size(), 0); need_reset.assign(p.modes.size(), 0);
    if (p.timeout >= 0) stop = Tag{p.timeout, 0};
    if (in.has_stop && in.stop < stop) stop = in.stop;
    std::set<int> trig;
    for (size_t i = 0; i < n; i++) if (mine(p.reactions[i].reactor)) for (auto &t : p.trigs[i]) if (t.kind == TK_STARTUP && mode_ok_reaction((int)i)) trig.insert((int)i);
    if (modal) for (size_t m = 0; m < p.modes.size(); m++) if (mode_active((int)m)) mode_started[m] = 1;
    for (size_t i = 0; i < p.timers.size(); i++) {
      if (!mine(p.timers[i].reactor)) continue;
      auto &t = p.timers[i];
      if (modal && timer_mode((int)i) >= 0 && !mode_active(timer_mode((int)i))) { susp.push_back({TK_TIMER, (int)i, {false, 0, 0}, Tag{t.offset, t.offset == 0 ? 1u : 0u}}); continue; }
      start_timer((int)i, 0, &trig);
    }
    for (auto &e : in.async_ev) { auto it = in.phys.find(e.first); if (it != in.phys.end() && it->second <= stop) { const InV &v = in.async_val.at(e.first); put(it->second, TK_ACTION, e.second, Pay{v.has, v.len, v.first}); } }
    bool first = true;
    for (;;) {
      // collect events of this tag
      chan.clear(); act.clear();
      auto it = q.find(cur);
      if (it != q.end()) {
        auto evs = it->second; q.erase(it);
        for (auto &e : evs) {
          int kind = e.first.first, id = e.first.second;
          if (kind == TK_TIMER) { if (p.timers[id].period > 0) { Tag nt{cur.t + p.timers[id].period, 0}; if (nt <= stop) put(nt, TK_TIMER, id, {false, 0, 0}); } }
          else act[id] = e.second;
          for (size_t i = 0; i < n; i++) if (mine(p.reactions[i].reactor)) for (auto &t : p.trigs[i]) if (t.kind == kind && t.id == id && mode_ok_reaction((int)i)) trig.insert((int)i);
        }
      }
      if (pend) {
        // the startup and reset reactions of modes that were entered in the preceding step
        for (size_t i = 0; i < n; i++) if (mine(p.reactions[i].reactor)) { int m = reaction_mode((int)i); if (m < 0 || !mode_active(m)) continue; for (auto &t : p.trigs[i]) if ((t.kind == TK_STARTUP && need_startup[m]) || (t.kind == TK_RESET && need_reset[m])) { trig.insert((int)i); if (!in.prerun) probe(t.kind == TK_RESET ? PR_MODE_RESET : PR_MODE_START); } }
        for (size_t m = 0; m < p.modes.size(); m++) if (mode_active((int)m)) { if (need_startup[m]) mode_started[m] = 1; need_startup[m] = need_reset[m] = 0; }
        pend = false;
      }
      for (size_t i = 0; i < n; i++) if (mine(p.reactions[i].reactor) && cur == stop_of((int)i)) for (auto &t : p.trigs[i]) if (t.kind == TK_SHUTDOWN && shutdown_ok((int)i)) trig.insert((int)i);
      first = false;
      out.tags.push_back(cur);
      // execute in topological order
      for (int i : p.topo) {
        if (!trig.count(i) || stop_of(i) < cur) continue;
        exec(i, trig);
        if (out.inv.size() > in.cap) { out.capped = true; out.stop = cur; return out; }
      }
      trig.clear(); stp.clear();
      if (cur == stop) break;
      if (modal) mode_changes(trig);
      Tag next;
      if (q.empty() && !pend) { if (!p.keepalive) { if (!in.prerun) probe(PR_STARVE); Tag s = Tag{cur.t, cur.m + 1}; if (s < stop) stop = s; } next = stop; }
      else { next = q.empty() ? stop : q.begin()->first; if (pend) { Tag pt{cur.t, cur.m + 1}; if (pt < next) next = pt; } if (stop < next) next = stop; }
      for (auto &s : in.node_stop) if (cur < s.second && s.second < next) next = s.second;
      if (next.t == FOREVER_T) { out.capped = true; out.stop = next; return out; }
      cur = next;
      if (out.tags.size() > 20000) { out.capped = true; break; }
    }
    out.stop = stop;
    return out;
  }
  Tag stop_of(int i) { if (in.node_stop.empty()) return stop; auto s = in.node_stop.find(p.reactors[p.reactions[i].reactor].node); return s != in.node_stop.end() ? s->second : stop; }
  std::map<int, size_t> sent_n;
  bool mode_ok_reaction(int i) { int m = reaction_mode(i); return m < 0 || mode_active(m); }
  bool shutdown_ok(int i) { int m = reaction_mode(i); if (m < 0) return true; return mode_started[m]; }
  void start_timer(int i, i64 base, std::set<int> *trig) {
    auto &t = p.timers[i];
    i64 at = base + t.offset;
    if (t.offset == 0 && trig) {
      for (size_t k = 0; k < p.reactions.size(); k++) for (auto &x : p.trigs[k]) if (x.kind == TK_TIMER && x.id == i && mode_ok_reaction((int)k)) trig->insert((int)k);
      if (t.period == 0) return;
      at = base + t.period;
    }
    Tag tg{at, 0};
    if (tg <= stop) put(tg, TK_TIMER, i, {false, 0, 0});
  }
  void mode_changes(std::set<int> &trig);
  std::map<int, size_t> physk;
  void net_exec(int i, std::set<int> &trig) {
    const sp_reaction &X = p.reactions[i]; const sp_net &N = p.nets[X.net_id];
    if (X.net_kind == 1) { auto f = act.find(N.action); if (f != act.end()) { Pay y = f->second; bool l = y.late; y.late = false; set_out(p.ports[p.outs[i][0]].first_chan, y, trig, l); } return; }
    if (X.net_kind != 2) return;
    auto f = chan.find(N.src_chan); if (f == chan.end()) return;
    Pay pay = f->second;
    if (N.physical || (in.dec && !in.prerun)) {
      if (in.prerun) { put(Tag{cur.t + p.Q / 10 + 1, (u32)physk[X.net_id]++}, TK_ACTION, N.action, pay); return; }
      auto o = in.netphys.find(X.net_id); size_t k = physk[X.net_id]++;
      Tag t{FOREVER_T, 0}; if (o != in.netphys.end() && k < o->second.size()) t = o->second[k];
      Tag want = N.physical ? Tag{NEVER_T, 0} : N.delay < 0 ? cur : delay_tag(cur, N.delay);
      out.msgs.push_back({X.net_id, cur, t, pay.len, pay.first, want});
      if (!N.physical) {
        pay.late = want < t;
        if (t < want) return;
        if (t == cur) { act[N.action] = pay; for (size_t q = 0; q < p.reactions.size(); q++) for (auto &x : p.trigs[q]) if (x.kind == TK_ACTION && x.id == N.action) trig.insert((int)q); return; }
      }
      if (t <= stop && t.t != FOREVER_T) put(t, TK_ACTION, N.action, pay);
      return;
    }
    if (N.delay < 0) {
      out.msgs.push_back({X.net_id, cur, cur, pay.len, pay.first});
      if (in.net_cap.size()) { auto k = in.net_cap.find(X.net_id); if (k != in.net_cap.end() && sent_n[X.net_id]++ >= k->second) return; }
      act[N.action] = pay;
      for (size_t k = 0; k < p.reactions.size(); k++) for (auto &x : p.trigs[k]) if (x.kind == TK_ACTION && x.id == N.action) trig.insert((int)k);
      return;
    }
    Tag t = delay_tag(cur, N.delay);
    while (exists(t, TK_ACTION, N.action)) t.m++;
    out.msgs.push_back({X.net_id, cur, t, pay.len, pay.first});
    if (stop_of(i) < t && !(in.net_cap.count(X.net_id) && !(stop < t))) return;
    if (in.net_cap.size()) { auto k = in.net_cap.find(X.net_id); if (k != in.net_cap.end() && sent_n[X.net_id]++ >= k->second) return; }
    put(t, TK_ACTION, N.action, pay);
  }
  void exec(int i, std::set<int> &trig) {
    const sp_reaction &X = p.reactions[i];
    if (X.net_kind) { net_exec(i, trig); return; }
    int kind = BODY;
    if (!in.prerun) {
      auto it = in.kinds.find({i, {cur.t, cur.m}});
      if (it != in.kinds.end() && it->second != STP_HANDLER) kind = it->second;
      if (in.dec && X.has_stp && stp.count(i)) { kind = STP_HANDLER; probe(PR_STP); }
    }
    RefInv v; v.rid = i; v.kind = kind; v.tag = cur; v.state = state[X.reactor];
    auto addport = [&](int pt) { for (int w = 0; w < p.ports[pt].width; w++) { int c = p.ports[pt].first_chan + w; int s = p.chans[c].src; auto f = chan.find(s); v.in.push_back(mkin(TK_INPUT, c, s >= 0 && f != chan.end() ? &f->second : nullptr)); } };
    for (auto &t : p.trigs[i]) {
      if (t.kind == TK_ACTION) { auto f = act.find(t.id); v.in.push_back(mkin(TK_ACTION, t.id, f != act.end() ? &f->second : nullptr)); }
      else if (t.kind == TK_INPUT) addport(t.id);
    }
    for (int s : p.srcs[i]) addport(s);
    out.inv.push_back(v);
    Body b = body_eval(p, i, kind, cur, v.state, v.in);
    bool late = stp.count(i) && kind != STP_HANDLER;   // passed on until a handler has dealt with it
    for (auto &o : b.ops) {
      switch (o.op) {
      case OP_SET_V: set_out(o.a, Pay{true, 1, o.v}, trig, late); break;
      case OP_SET_T_NEW: set_out(o.a, Pay{true, o.x, o.v}, trig, late); break;
      case OP_SET_T_FWD: { auto &s = v.in[o.b]; set_out(o.a, Pay{true, s.len, s.first + (o.x ? o.v : 0)}, trig, late); if (o.x) { v.in[o.b].first += o.v; v.in[o.b].val = payload_hash(v.in[o.b].first, s.len, 0); } break; }
      case OP_SCHED_NONE: schedule(o.a, o.x, Pay{false, 0, 0}); break;
      case OP_SCHED_V: schedule(o.a, o.x, Pay{true, 1, o.v}); break;
      case OP_SCHED_T_NEW: schedule(o.a, o.x, Pay{true, 1 + (i64)(o.v % 7), o.v}); break;
      case OP_SCHED_T_FWD: { auto &s = v.in[o.b]; schedule(o.a, o.x, Pay{true, s.len, s.first}); break; }
      case OP_STOP: if (in.ignore_stop) break; { Tag s{cur.t, cur.m + 1}; if (s < stop) stop = s; break; }
      case OP_MODE: mode_next[X.reactor] = o.a; mode_type[X.reactor] = o.b; break;
      default: break;
      }
    }
    state[X.reactor] = b.nstate;
    // A late reaction marks everything downstream of its present outputs, also of those that another reaction
    // of the reactor has written at this tag: the runtime keeps no record of who wrote a port.
    if (late) for (int pt : p.outs[i]) for (int w = 0; w < p.ports[pt].width; w++) { int c = p.ports[pt].first_chan + w; if (chan.count(c)) for (int d : p.dsts[c]) mark_late(p.chans[d].port); }
  }
  void mark_late(int pt) { for (size_t k = 0; k < p.reactions.size(); k++) for (auto &x : p.trigs[k]) if (x.kind == TK_INPUT && x.id == pt && mode_ok_reaction((int)k)) stp.insert((int)k); }
  void set_out(int c, Pay pay, std::set<int> &trig, bool late = false) {
    chan[c] = pay;
    for (int d : p.dsts[c]) { int pt = p.chans[d].port; for (size_t k = 0; k < p.reactions.size(); k++) for (auto &x : p.trigs[k]) if (x.kind == TK_INPUT && x.id == pt && mode_ok_reaction((int)k)) trig.insert((int)k);
      if (late) mark_late(pt); }
  }
};
// Transitions take effect at the end of a tag.
void RefRun::mode_changes(std::set<int> &) {
  size_t nr = p.reactors.size(), nm = p.modes.size(); bool any = false;
  for (size_t r = 0; r < nr; r++) {
    if (!mine((int)r) || p.reactors[r].n_modes == 0) continue;
    int pm = p.reactors[r].parent_mode;
    if (pm >= 0) { int pr = p.modes[pm].reactor; if (mode_next[pr] == pm && mode_type[pr] == 0) { mode_next[r] = p.reactors[r].initial_mode; mode_type[r] = 0; } }
    int x = mode_next[r]; if (x < 0) continue;
    any = true; if (!in.prerun) probe(PR_MODE);
    if (mode_type[r] == 0) {
      for (size_t k = 0; k < nr; k++) if (p.reactors[k].reset_state && p.reactors[k].parent_mode == x) state[k] = (u64)p.reactors[k].init_state;
      // pending events of the mode are discarded, its timers start over
      std::vector<Susp> keep; for (auto &s : susp) if ((s.kind == TK_TIMER ? timer_mode(s.id) : action_mode(s.id)) != x) keep.push_back(s); else if (s.kind == TK_ACTION && !in.prerun) probe(PR_MODE_DROP);
      susp = keep;
      for (auto it = q.begin(); it != q.end();) { for (auto e = it->second.begin(); e != it->second.end();) { int m = e->first.first == TK_TIMER ? timer_mode(e->first.second) : action_mode(e->first.second); if (m == x) e = it->second.erase(e); else ++e; } if (it->second.empty()) it = q.erase(it); else ++it; }
      for (size_t t = 0; t < p.timers.size(); t++) if (mine(p.timers[t].reactor) && timer_mode((int)t) == x) susp.push_back({TK_TIMER, (int)t, {false, 0, 0}, Tag{p.timers[t].offset, p.timers[t].offset == 0 ? 1u : 0u}});
    }
  }
  if (!any) return;
  for (size_t r = 0; r < nr; r++) if (mode_next[r] >= 0) { int x = mode_next[r]; mode_cur[r] = x; need_reset[x] = mode_type[r] == 0; mode_next[r] = -1; }
  for (size_t m = 0; m < nm; m++) if (mode_active((int)m)) { if (!mode_started[m]) need_startup[m] = 1; if (need_startup[m] || need_reset[m]) pend = true; }
  // suspend what is now inactive, resume what is active again
  for (auto it = q.begin(); it != q.end();) {
    for (auto e = it->second.begin(); e != it->second.end();) {
      int m = e->first.first == TK_TIMER ? timer_mode(e->first.second) : action_mode(e->first.second);
      if (m < 0 || mode_active(m)) { ++e; continue; }
      Tag rel{it->first.t - cur.t, it->first.t == cur.t ? it->first.m - cur.m : it->first.m};
      susp.push_back({e->first.first, e->first.second, e->second, rel}); if (!in.prerun) probe(PR_MODE_SUSPEND);
      e = it->second.erase(e);
    }
    if (it->second.empty()) it = q.erase(it); else ++it;
  }
  std::vector<Susp> keep;
  for (auto &s : susp) {
    int m = s.kind == TK_TIMER ? timer_mode(s.id) : action_mode(s.id);
    if (m >= 0 && !mode_active(m)) { keep.push_back(s); continue; }
    Tag at = s.rel.t == 0 ? Tag{cur.t, cur.m + s.rel.m} : Tag{cur.t + s.rel.t, s.rel.m};
    if (at <= stop) put(at, s.kind, s.id, s.pay);
  }
  susp = keep;
}
RefOut ref_run(const Prog &p, const RefIn &in) { RefRun r(p, in); return r.run(); }
