// Generator of local (unfederated) programs.
#include "prog.h"

static std::string rname(int &n) { return "rule" + std::to_string(n++); }

void gen_local(Prog &p, Rng &r, const Cfg &c) {
  int nrule = 0;
  static const i64 qs[] = {MS, MS, 200 * US, 50 * US, 10 * US};
  p.Q = qs[r.below(5)]; if (c.get("q_ns")) p.Q = c.get("q_ns");
  bool st = c.get("threads") == 0;
  bool fast = c.get("fast"); p.fast = fast;
  bool f_dl = c.get("f_dl"), f_multi = c.get("f_multi"), f_sparse = c.get("f_sparse"), f_tok = c.get("f_tok"), f_spacing = c.get("f_spacing"), f_stop = c.get("f_stop"),
       f_phys = c.get("f_phys") && !fast, f_async = c.get("f_async") && !st && !fast, f_wd = c.get("f_wd") && !st && !fast, f_modal = c.get("f_modal"), f_dense = c.get("f_dense");
  int n_periods = (int)r.range(2, f_modal ? 16 : 10);
  p.horizon = p.Q * n_periods;
  p.ms_limit = (int)r.range(0, 5);
  auto qd = [&](int maxk) { return p.Q * r.range(1, maxk); };
  int nr = (int)r.range(1, c.get("max_reactors", 6));
  int nf = (int)c.get("nf"); if (nf) nr = (int)r.range(nf, std::max<i64>(nf, c.get("max_reactors", 6)));
  for (int i = 0; i < nr; i++) { int x = p.new_reactor(nf ? i < nf ? i : (int)r.below(nf) : 0); p.reactors[x].init_state = (i64)r.below(1000) << 8; }
  // modal structure: a modal reactor may own modes; other reactors may be instantiated inside a mode
  if (f_modal) {
    for (int i = 0; i < nr; i++) if (i == 0 || r.p(0.4)) {
      auto &R = p.reactors[i]; R.first_mode = (int)p.modes.size(); R.n_modes = (int)r.range(2, 3);
      for (int k = 0; k < R.n_modes; k++) p.modes.push_back({i, k});
      R.initial_mode = R.first_mode + (r.p(0.7) ? 0 : (int)r.below(R.n_modes));
    }
    for (int i = 1; i < nr; i++) if (r.p(0.5)) {
      int q = (int)r.below(i); if (p.reactors[q].n_modes > 0) p.reactors[i].parent_mode = p.reactors[q].first_mode + (int)r.below(p.reactors[q].n_modes);
      else if (p.reactors[q].parent_mode >= 0) p.reactors[i].parent_mode = p.reactors[q].parent_mode;
      if (p.reactors[i].parent_mode >= 0) p.reactors[i].reset_state = r.p(0.5);
    }
  }
  auto rmode = [&](int reactor) { auto &R = p.reactors[reactor]; if (R.n_modes > 0 && r.p(0.75)) return R.first_mode + (int)r.below(R.n_modes); return -1; };
  std::vector<std::vector<int>> ins(nr), outs(nr), tims(nr), acts(nr), wds(nr), reacts(nr);
  for (int i = 0; i < nr; i++) {
    int ni = (int)r.below(nr > 1 ? 4 : 1), no = (int)r.below(nr > 1 ? 3 : 1);
    if (nr > 1 && (i == 0 || (nf && r.p(0.6))) && no == 0) no = 1;
    if (nf && ni == 0 && r.p(0.7)) ni = 1;
    for (int k = 0; k < ni; k++) {
      int w = f_multi && r.p(0.35) ? (int)r.range(2, f_sparse && r.p(0.5) ? 20 : 5) : 1;
      int q = p.new_port(i, false, w, f_tok && r.p(0.5) ? PT_T : PT_V); p.ports[q].mut = p.ports[q].ptype == PT_T && r.p(0.4); p.ports[q].sparse = w > 1 && f_sparse && r.p(0.8);
      ins[i].push_back(q);
    }
    for (int k = 0; k < no; k++) {
      int w = f_multi && r.p(0.35) ? (int)r.range(2, f_sparse && r.p(0.5) ? 20 : 5) : 1;
      outs[i].push_back(p.new_port(i, true, w, f_tok && r.p(0.5) ? PT_T : PT_V));
    }
    int nt = (int)r.below(3); if (i == 0 && nt == 0) nt = 1;
    for (int k = 0; k < nt; k++) {
      i64 off = r.p(0.4) ? 0 : qd(4), per = r.p(0.25) ? 0 : qd(4);
      int t = p.new_timer(i, off, per); p.timers[t].mode = rmode(i); tims[i].push_back(t);
    }
    int na = (int)r.below(3);
    for (int k = 0; k < na; k++) {
      bool ph = f_phys && r.p(0.35);
      i64 d = r.p(0.45) ? 0 : qd(3);
      int a = p.new_action(i, ph, f_tok && r.p(0.5) ? PT_T : PT_V, d); p.actions[a].mode = ph && !f_modal ? -1 : ph ? -1 : rmode(i);
      if (!ph && f_spacing && !f_modal && r.p(0.5)) { p.actions[a].min_spacing = qd(4); p.actions[a].policy = (int)r.below(3); }
      acts[i].push_back(a);
    }
    for (int k = 0; f_wd && k < 2; k++) if (p.watchdogs.size() < 6 && r.p(k ? 0.3 : 0.5)) { p.watchdogs.push_back({i, p.Q * r.range(1, 4), -1}); wds[i].push_back((int)p.watchdogs.size() - 1); p.wrules.emplace_back(); }
  }
  // reactions
  for (int i = 0; i < nr; i++) {
    int k = (int)r.range(1, c.get("max_reactions", 4));
    for (int j = 0; j < k; j++) {
      int x = p.new_reaction(i); reacts[i].push_back(x);
      p.reactions[x].mode = rmode(i);
      // components of a mode are only visible to the reactions of that mode
      auto vis = [&](int m) { return m < 0 || m == p.reactions[x].mode; };
      std::vector<int> tv, av; for (int t : tims[i]) if (vis(p.timers[t].mode)) tv.push_back(t);
      for (int a : acts[i]) if (vis(p.actions[a].mode)) av.push_back(a);
      auto &T = p.trigs[x];
      auto addt = [&](int kind, int id) { for (auto &t : T) if (t.kind == kind && t.id == id) return; T.push_back({kind, id}); };
      if (r.p(0.15)) addt(TK_STARTUP, 0);
      if (r.p(0.08)) addt(TK_SHUTDOWN, 0);
      if (f_modal && (p.reactions[x].mode >= 0 || p.reactors[i].parent_mode >= 0) && r.p(0.25)) addt(TK_RESET, 0);
      for (int t : tv) if (r.p(0.5)) addt(TK_TIMER, t);
      for (int a : av) if (r.p(0.55)) addt(TK_ACTION, a);
      for (int q : ins[i]) if (r.p(0.5)) addt(TK_INPUT, q); else if (r.p(0.4)) p.srcs[x].push_back(q);
      if (T.empty()) {
        int total = (int)(tv.size() + av.size() + ins[i].size());
        if (!total) { tims[i].push_back(p.new_timer(i, r.p(0.4) ? 0 : qd(4), qd(4))); total = 1; addt(TK_TIMER, tims[i].back()); }
        else {
          int z = (int)r.below(total);
          if (z < (int)tv.size()) addt(TK_TIMER, tv[z]);
          else if ((z -= (int)tv.size()) < (int)av.size()) addt(TK_ACTION, av[z]);
          else { int q = ins[i][z - av.size()]; addt(TK_INPUT, q); p.srcs[x].erase(std::remove(p.srcs[x].begin(), p.srcs[x].end(), q), p.srcs[x].end()); }
        }
      }
      for (int o : outs[i]) if (r.p(0.7)) p.outs[x].push_back(o);
      if (f_dl && r.p(0.4)) {
        static const i64 ds[] = {0, 1 * US, 20 * US, 200 * US, 1 * MS, 5 * MS, 100 * MS};
        p.reactions[x].deadline = ds[r.below(7)]; p.reactions[x].has_dl_handler = 1;
      }
      if (c.get("decentralized")) { bool inp = false; for (auto &t : p.trigs[x]) inp |= t.kind == TK_INPUT; if (inp && r.p(0.6)) p.reactions[x].has_stp = 1; }
      // rules
      auto rule = [&](int op, int a, int b, i64 xx, u32 mod) { p.rules[x].push_back(Rule{op, a, b, xx, mod, (u32)r.below(mod ? mod : 1), rname(nrule)}); };
      if (r.p(0.3)) rule(OP_BURN, 0, 0, r.range(1, 300) * US, (u32)r.range(1, 3));
      for (int o : p.outs[x]) for (int w = 0; w < p.ports[o].width; w++) {
        u32 mod = f_dense ? 1 : (u32)r.range(1, p.ports[o].width > 4 ? 5 : 3);
        if (p.ports[o].ptype == PT_V) rule(OP_SET_V, p.ports[o].first_chan + w, 0, 0, mod);
        else rule(r.p(0.5) ? OP_SET_T_NEW : OP_SET_T_FWD, p.ports[o].first_chan + w, (int)r.below(2), (i64)r.below(2), mod);
      }
      for (int a : av) if (r.p(0.6)) {
        i64 e = r.p(0.5) ? 0 : p.Q * r.range(0, 3);
        if (r.p(0.05)) e = -(i64)r.range(1, 2 * p.Q);   // a negative delay counts as zero
        u32 mod = (u32)r.range(1, 4);
        int copies = r.p(0.15) ? 2 : 1;
        for (int z = 0; z < copies; z++) {
          if (p.actions[a].ptype == PT_T) rule(r.p(0.5) ? OP_SCHED_T_NEW : OP_SCHED_T_FWD, a, (int)r.below(3), e, mod);
          else rule(r.p(0.3) ? OP_SCHED_NONE : OP_SCHED_V, a, 0, e, mod);
        }
      }
      if (p.reactions[x].deadline >= 0 && !fast && r.p(0.3)) rule(OP_CHECK_DL, 0, 0, 0, 2);
      if (f_stop && r.p(0.2)) rule(OP_STOP, 0, 0, r.p(0.3) ? 0 : p.Q * r.range(0, n_periods), (u32)r.range(1, 4));
      if (f_modal && p.reactors[i].n_modes > 0 && p.reactions[x].mode >= 0 && r.p(0.7)) {
        int nm = (int)r.range(1, 2);
        for (int z = 0; z < nm; z++) {
          int to = p.reactors[i].first_mode + (int)r.below(p.reactors[i].n_modes), type = (int)r.below(2);
          if (to == p.reactions[x].mode) type = 1;   // whether a mode that resets itself restarts its timers is not specified
          rule(OP_MODE, to, type, 0, (u32)r.range(1, 4));
        }
      }
      for (int w : wds[i]) {
        if (r.p(0.6)) rule(OP_WD_START, w, 0, p.Q * r.range(0, 3), (u32)r.range(1, 3));
        if (r.p(0.25)) rule(OP_WD_STOP, w, 0, 0, (u32)r.range(1, 3));
      }
      if (r.p(0.15)) rule(OP_BURN, 0, 0, r.range(1, 100) * US, (u32)r.range(1, 3));
    }
  }
  // modal reactors: every mode is likely to have something pending and a way out
  if (f_modal) for (int i = 0; i < nr; i++) for (int m = p.reactors[i].first_mode, k = 0; k < p.reactors[i].n_modes; k++, m++) {
    auto rule = [&](int x, int op, int a, int b, i64 xx, u32 mod) { p.rules[x].push_back(Rule{op, a, b, xx, mod, (u32)r.below(mod ? mod : 1), rname(nrule)}); };
    auto leave = [&](int x) { int to = p.reactors[i].first_mode + (int)r.below(p.reactors[i].n_modes); if (to == m) to = p.reactors[i].first_mode + (k + 1) % p.reactors[i].n_modes; rule(x, OP_MODE, to, (int)r.below(2), 0, (u32)r.range(1, 2)); };
    if (r.p(0.8)) {
      int t = p.new_timer(i, r.p(0.3) ? 0 : qd(3), r.p(0.25) ? 0 : qd(3)); p.timers[t].mode = m;
      int x = p.new_reaction(i); reacts[i].push_back(x); p.reactions[x].mode = m; p.trigs[x].push_back({TK_TIMER, t}); if (r.p(0.3)) p.trigs[x].push_back({TK_RESET, 0});
      leave(x);
    }
    if (r.p(0.6)) {
      int a = p.new_action(i, false, f_tok && r.p(0.5) ? PT_T : PT_V, r.p(0.3) ? 0 : qd(3)); p.actions[a].mode = m;
      int x = p.new_reaction(i); reacts[i].push_back(x); p.reactions[x].mode = m; p.trigs[x].push_back({TK_ACTION, a}); if (r.p(0.3)) p.trigs[x].push_back({TK_STARTUP, 0}); if (r.p(0.3)) p.trigs[x].push_back({TK_RESET, 0}); if (r.p(0.15)) p.trigs[x].push_back({TK_SHUTDOWN, 0});
      if (r.p(0.5)) leave(x);
      for (int y : reacts[i]) if (p.reactions[y].mode == m && r.p(0.7)) { int z = (int)r.range(1, 3); while (z--) if (p.actions[a].ptype == PT_T) rule(y, r.p(0.5) ? OP_SCHED_T_NEW : OP_SCHED_T_FWD, a, (int)r.below(3), r.p(0.5) ? 0 : p.Q * r.range(0, 3), (u32)r.range(1, 2)); else rule(y, r.p(0.3) ? OP_SCHED_NONE : OP_SCHED_V, a, 0, r.p(0.5) ? 0 : p.Q * r.range(0, 3), (u32)r.range(1, 2)); }
    }
  }
  // a mutable input that several reactions of one reactor read may be modified in place by the first of them
  for (size_t q = 0; q < p.ports.size(); q++) if (p.ports[q].mut) {
    int n = 0;
    for (size_t x = 0; x < p.reactions.size(); x++) { for (auto &t : p.trigs[x]) n += t.kind == TK_INPUT && t.id == (int)q; for (int z : p.srcs[x]) n += z == (int)q; }
    if (n > 1) p.ports[q].mut = 0;
  }
  // connections
  std::vector<int> oc, ic;
  for (size_t i = 0; i < p.chans.size(); i++) (p.ports[p.chans[i].port].is_output ? oc : ic).push_back((int)i);
  double pc = 0.5 + 0.5 * r.u();
  for (int x : ic) if (!oc.empty() && r.p(pc)) {
    for (int tries = 0; tries < 6; tries++) {
      int o = oc[r.below(oc.size())];
      if (p.ports[p.chans[o].port].ptype != p.ports[p.chans[x].port].ptype) continue;
      if (p.ports[p.chans[o].port].reactor == p.ports[p.chans[x].port].reactor) continue;
      if (p.ports[p.chans[x].port].sparse && !p.dsts[o].empty()) continue;
      // a channel with a sparse destination keeps that single destination
      bool sp = false; for (int d : p.dsts[o]) sp |= p.ports[p.chans[d].port].sparse;
      if (sp) continue;
      int sn = p.reactors[p.ports[p.chans[o].port].reactor].node, dn = p.reactors[p.ports[p.chans[x].port].reactor].node;
      if (sn != dn) {
        if (p.reactors.size() > 50 || p.nets.size() > 14) continue;
        i64 d = r.p(c.get("p_zero_ppm", 500000) * 1e-6) ? NEVER_T : r.p(0.25) ? 0 : qd(3); bool ph = c.get("f_netphys") && r.p(0.3);
        if (p.connect_net(o, x, d, ph, r.p(0.4))) { reacts.resize(p.reactors.size()); break; }
        continue;
      }
      if (p.connect(o, x)) break;
    }
  }
  // relay: a message that travels along a path of federates, which may come back to where it has been
  for (int g = 0; g < (c.get("f_relay") && nf ? (int)r.range(1, 2) : 0); g++) {
    auto rule = [&](int x, int op, int a, int b, i64 xx, u32 mod) { p.rules[x].push_back(Rule{op, a, b, xx, mod, (u32)r.below(mod ? mod : 1), rname(nrule)}); };
    int L = (int)r.range(2, nf + 2), pt = f_tok && r.p(0.4) ? PT_T : PT_V, from = -1; i64 off = r.p(0.6) ? 0 : qd(2), per = qd(2); int node = (int)r.below(nf); bool zero = r.p(0.6);
    for (int k = 0; k < L && p.nets.size() <= 16; k++) {
      int i = p.new_reactor(node), x = p.new_reaction(i);
      if (k) {
        int q = p.new_port(i, false, 1, pt); p.trigs[x].push_back({TK_INPUT, q});
        if (!p.connect_net(from, p.ports[q].first_chan, zero || r.p(0.6) ? NEVER_T : r.p(0.3) ? 0 : qd(2), false, r.p(0.3))) break;
      }
      if (!k || r.p(0.35)) p.trigs[x].push_back({TK_TIMER, p.new_timer(i, off, r.p(0.7) ? per : qd(2))});
      if (k + 1 < L) {
        int o = p.new_port(i, true, 1, pt); p.outs[x].push_back(o); from = p.ports[o].first_chan; u32 mod = r.p(0.7) ? 1 : (u32)r.range(2, 3);
        if (pt == PT_V) rule(x, OP_SET_V, from, 0, 0, mod); else rule(x, r.p(0.5) ? OP_SET_T_NEW : OP_SET_T_FWD, from, (int)r.below(2), (i64)r.below(2), mod);
      }
      if (r.p(0.2)) rule(x, OP_BURN, 0, 0, r.range(1, 50) * US, (u32)r.range(1, 2));
      int nx = (int)r.below(nf - 1); node = nx < node ? nx : nx + 1;
    }
  }
  if (reacts.size() < p.reactors.size()) reacts.resize(p.reactors.size());
  // fan: reactors of the same level, present at the same tags, that feed the same reactions of one sink
  for (int g = 0; g < (c.get("f_fan") && !nf ? (int)r.range(1, 2) : 0); g++) {
    auto rule = [&](int x, int op, int a, int b, i64 xx, u32 mod) { p.rules[x].push_back(Rule{op, a, b, xx, mod, (u32)r.below(mod ? mod : 1), rname(nrule)}); };
    int K = (int)r.range(2, 5), hub = -1; i64 off = r.p(0.7) ? 0 : qd(2), per = qd(2); bool multi = r.p(0.5), sparse = multi && f_sparse && r.p(0.7);
    int pt = f_tok && r.p(0.5) ? PT_T : PT_V;
    if (r.p(0.5)) {
      int h = p.new_reactor(0), x = p.new_reaction(h); hub = p.new_port(h, true, 1, r.p(0.6) ? pt : PT_V); p.trigs[x].push_back({TK_TIMER, p.new_timer(h, off, per)}); p.outs[x].push_back(hub);
      if (p.ports[hub].ptype == PT_V) rule(x, OP_SET_V, p.ports[hub].first_chan, 0, 0, 1); else rule(x, OP_SET_T_NEW, p.ports[hub].first_chan, (int)r.below(2), (i64)r.below(2), 1);
    }
    int s = p.new_reactor(0); std::vector<int> in, ich;
    for (int k = 0; k < (multi ? 1 : K); k++) { int q = p.new_port(s, false, multi ? K : 1, pt); p.ports[q].sparse = sparse; in.push_back(q); for (int w = 0; w < p.ports[q].width; w++) ich.push_back(p.ports[q].first_chan + w); }
    for (int k = 0; k < K; k++) {
      int i = p.new_reactor(0), x = p.new_reaction(i), o = p.new_port(i, true, 1, pt), oc = p.ports[o].first_chan;
      if (hub >= 0) { int q = p.new_port(i, false, 1, p.ports[hub].ptype); p.ports[q].mut = p.ports[q].ptype == PT_T && r.p(0.5); p.trigs[x].push_back({TK_INPUT, q}); p.connect(p.ports[hub].first_chan, p.ports[q].first_chan); }
      else p.trigs[x].push_back({TK_TIMER, p.new_timer(i, off, per)});
      p.outs[x].push_back(o);
      if (r.p(0.3)) rule(x, OP_BURN, 0, 0, r.range(1, 50) * US, (u32)r.range(1, 2));
      u32 mod = r.p(0.7) ? 1 : 2;
      if (pt == PT_V) rule(x, OP_SET_V, oc, 0, 0, mod); else rule(x, r.p(0.5) ? OP_SET_T_NEW : OP_SET_T_FWD, oc, (int)r.below(2), (i64)r.below(2), mod);
      p.connect(oc, ich[k]);
    }
    int nx = (int)r.range(1, 3);
    for (int z = 0; z < nx; z++) { int x = p.new_reaction(s); for (int q : in) if (r.p(0.85)) p.trigs[x].push_back({TK_INPUT, q}); if (p.trigs[x].empty()) p.trigs[x].push_back({TK_INPUT, in[0]}); }
  }
  // asynchronous threads
  if (f_async) {
    int an = nf ? (int)r.below(nf) : 0;
    std::vector<int> pa; for (size_t a = 0; a < p.actions.size(); a++) if (p.actions[a].physical && p.actions[a].net_in < 0 && p.reactors[p.actions[a].reactor].node == an) pa.push_back((int)a);
    if (pa.empty()) {
      int i = (int)r.below(nr); if (nf) i = an; int a = p.new_action(i, true, f_tok && r.p(0.5) ? PT_T : PT_V, r.p(0.5) ? 0 : qd(3)); pa.push_back(a);
      p.trigs[reacts[i][r.below(reacts[i].size())]].push_back({TK_ACTION, a});
    }
    for (int a : pa) { bool used = false; for (auto &t : p.trigs) for (auto &x : t) used |= x.kind == TK_ACTION && x.id == a; if (!used) p.trigs[reacts[p.actions[a].reactor][0]].push_back({TK_ACTION, a}); }
    int nth = (int)r.range(1, 3); u64 base = r.next();
    for (int t = 0; t < nth; t++) {
      std::vector<AsyncStep> st_; int n = (int)r.range(1, 8);
      for (int k = 0; k < n; k++) {
        AsyncStep s; s.wait = r.p(0.2) ? 0 : r.p(0.5) ? r.range(1, 200) * US : r.range(0, 2 * p.Q);
        s.op = 1; s.action = pa[r.below(pa.size())]; s.extra = r.p(0.6) ? 0 : r.p(0.1) ? -(i64)r.range(1, 2 * p.Q) : qd(3); s.v = mix2(base, (u64)t * 1000 + k) | 1; s.len = 1;
        if (p.actions[s.action].ptype == PT_T) { s.op = 2 + (int)r.below(3); s.len = r.range(1, 6); }
        if (f_stop && r.p(0.12)) { s.op = 100 + OP_STOP; }
        st_.push_back(s);
      }
      p.async.push_back(st_); p.async_node.push_back(an);
    }
    int r0 = p.new_reactor(an); int x = p.new_reaction(r0); p.trigs[x].push_back({TK_STARTUP, 0}); p.rules[x].push_back(Rule{OP_SPAWN, nth, 0, 0, 1, 0, "spawn"});
    int y = p.new_reaction(r0); p.trigs[y].push_back({TK_SHUTDOWN, 0}); p.rules[y].push_back(Rule{OP_JOIN, 0, 0, 0, 1, 0, "join"});
  }
  // watchdog handlers: they may schedule a physical action or start again
  for (size_t w = 0; w < p.watchdogs.size(); w++) {
    int i = p.watchdogs[w].reactor;
    auto rule = [&](int op, int a, int b, i64 xx, u32 mod) { p.wrules[w].push_back(Rule{op, a, b, xx, mod, (u32)r.below(mod), rname(nrule)}); };
    if (r.p(0.5)) rule(OP_BURN, 0, 0, r.range(1, 200) * US, 1);
    for (int a : acts[i]) if (p.actions[a].physical && r.p(0.7)) rule(p.actions[a].ptype == PT_T ? OP_SCHED_T_NEW : OP_SCHED_V, a, (int)r.below(3), 0, 1);
    if (c.get("f_wd_restart")) for (int z : wds[i]) { if (r.p(0.3)) rule(OP_WD_START, z, 0, p.Q * r.range(0, 2), 2); if (z != (int)w && r.p(0.2)) rule(OP_WD_STOP, z, 0, 0, 2); }
  }
  // an always present shutdown reaction
  for (int f = 0; f < std::max(1, nf); f++) { int r0 = p.new_reactor(f); int x = p.new_reaction(r0); p.trigs[x].push_back({TK_SHUTDOWN, 0}); }
  // ends
  bool anyphys = false, anyperiodic = false;
  for (auto &a : p.actions) anyphys |= a.physical;
  for (auto &t : p.timers) anyperiodic |= t.period > 0;
  p.big = c.get("f_big");
  p.keepalive = anyphys || r.p(0.2);
  if (!p.watchdogs.empty()) p.keepalive = true;
  if (nf) p.keepalive = true;
  bool need_to = p.keepalive || anyperiodic || f_modal;
  if (need_to || r.p(0.5) || c.get("f_timeout")) p.timeout = r.p(0.06) ? 0 : p.Q * r.range(1, n_periods) + (r.p(0.2) ? r.range(1, p.Q - 1) : 0);
  if (nf) p.finish_nets(nf, c.get("decentralized"));
  p.finish();
  // bound the number of reactions of a run
  for (int round = 0; round < 12; round++) {
    RefIn ri; ri.prerun = true; ri.cap = (size_t)c.get("max_inv", 250);
    for (auto &th : p.async) { i64 at = 0; u32 k = 0; for (auto &s : th) { at += s.wait + 2 * US; if (s.op >= 100) continue; ri.async_ev.push_back({s.v, s.action}); ri.phys[s.v] = Tag{at + std::max<i64>(s.extra, 0) + p.actions[s.action].min_delay, ++k}; ri.async_val[s.v] = InV{TK_ACTION, s.action, true, true, s.len, 0, s.v}; } }
    RefOut o = ref_run(p, ri);
    if (!o.capped) break;
    bool hz = p.timeout > 4 * p.Q && round % 2;
    if (hz) { p.timeout = p.timeout / 2; p.timeout -= p.timeout % p.Q; if (p.timeout < p.Q) p.timeout = p.Q; }
    for (auto &rs : p.rules) for (auto &x : rs) if ((x.op >= OP_SCHED_V && x.op <= OP_SCHED_T_FWD) || x.op == OP_MODE) x.mod = x.mod * 2 + 1;
    if (round > 6) { p.horizon /= 2; for (auto &t : p.timers) if (t.period) t.period *= 2; }
  }
}
