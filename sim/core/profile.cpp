// Run profiles: configuration (swarm) drawing and execution of one run.
#include "prog.h"
#include "net.h"
void on_clock_read(Node *n, Fiber *f, i64 t);

struct Draw {
  Rng &r; std::map<std::string, i64> &v;
  template <class T> i64 pick(std::initializer_list<T> l) { auto i = l.begin(); std::advance(i, r.below(l.size())); return (i64)*i; }
};
static void draw_common(Rng &r, std::map<std::string, i64> &v) {
  Draw d{r, v};
  double u = r.u();
  v["strat"] = u < 0.55 ? 0 : u < 0.85 ? 1 : 2;
  v["p_switch_ppm"] = d.pick({10000, 50000, 150000, 400000, 800000});
  v["p_mem_ppm"] = d.pick({0, 0, 300, 2000, 8000, 30000, 100000, 300000});
  v["p_stall_ppm"] = d.pick({0, 0, 0, 200, 2000});
  v["stall_unit_ns"] = d.pick({1000, 10000, 50000});
  v["p_spur_ppm"] = d.pick({0, 0, 20000, 200000});
  v["p_over_ppm"] = d.pick({0, 0, 50000, 300000});
  v["p_eintr_ppm"] = d.pick({0, 0, 0, 100000});
  v["pct_k"] = r.range(1, 8); v["pct_len"] = d.pick({300, 1000, 4000, 15000});
  v["c_sync_ns"] = d.pick({20, 60, 200, 1000});
}
static const char *img_names[] = {"st", "np", "gedf", "adapt", "tst", "tnp", "tgedf"};
void check_trace(Node *n, int node);
static bool is_fed(const std::string &p) { return p >= "C13" && p <= "C21"; }
std::vector<std::string> profile_images(const std::string &p) {
  if (p == "C21") return {"fedc", "afedc", "rti", "adv"};
  if (is_fed(p)) return {p == "C18" ? "fedd" : "fedc", "rti"};
  if (p == "C22") return {"tst", "tnp", "tgedf", "tfedc", "rti"};
  return {"st", "np", "gedf", "adapt"};
}
static void draw_local(const std::string &prof, Rng &r, std::map<std::string, i64> &v) {
  draw_common(r, v);
  auto is = [&](const char *p) { return prof == p; };
  double wst = is("C02") || is("C03") || is("C05") || is("C11") ? 0.03 : 0.15;
  if (is("C05") || is("C11")) wst = 0;
  double u = r.u();
  int img = u < wst ? 0 : u < wst + (1 - wst) * 0.5 ? 1 : u < wst + (1 - wst) * 0.77 ? 2 : 3;
  if (is("C22")) img = r.p(0.15) ? 4 : r.p(0.7) ? 5 : 6;
  v["img"] = img; v["traced"] = is("C22"); v["threads"] = img && img != 4 ? (r.p(0.1) ? 1 : r.range(2, 5)) : 0; v["cores"] = r.range(1, 8); v["argw"] = r.p(0.9);
  v["max_reactors"] = r.p(0.7) ? r.range(1, 4) : r.range(4, 8); v["max_reactions"] = r.range(1, 4); v["max_inv"] = r.p(0.8) ? 150 : 400;
  auto feat = [&](const char *k, double p) { v[k] = r.p(p); };
  feat("fast", is("C06") || is("C05") || is("C08") || is("C11") ? 0.05 : 0.3);
  feat("f_dl", is("C08") ? 1 : 0.3); feat("f_multi", 0.4); feat("f_sparse", 0.4); feat("f_tok", is("C09") ? 1 : 0.5);
  feat("f_spacing", is("C04") ? 0.9 : 0.35); feat("f_stop", is("C07") ? 0.8 : 0.3); feat("f_phys", is("C05") || is("C12") ? 1 : is("C04") ? 0.4 : 0.4);
  feat("f_async", is("C05") ? 1 : is("C07") || is("C09") || is("C12") ? 0.6 : 0.35);
  feat("f_fan", is("C02") || is("C03") || is("C09") ? 0.6 : is("C10") ? 0 : 0.2);
  feat("f_dense", 0.3); feat("f_wd", is("C11") ? 1 : 0); feat("f_wd_restart", 0.5); feat("f_modal", is("C10") ? 1 : 0);
  if (is("C10")) { v["f_async"] = v["f_phys"] = 0; if (r.p(0.7)) v["f_spacing"] = 0; v["f_stop"] = r.p(0.15); v["max_reactors"] = r.range(1, 5); v["max_reactions"] = r.range(1, 3); v["max_inv"] = r.p(0.7) ? 150 : 400; }
  if (is("C22")) {
    feat("f_wd", img == 4 ? 0 : 0.25); feat("f_modal", v["f_wd"] ? 0 : 0.15);
    if (v["f_modal"]) { v["f_async"] = v["f_phys"] = v["f_fan"] = 0; v["f_spacing"] = 0; v["f_stop"] = 0; }
    if (v["f_wd"]) v["fast"] = 0;
    double w = r.u(); Draw dd{r, v};
    if (w < 0.15) v["p_disk_err_ppm"] = dd.pick({5000, 50000, 300000}); else if (w < 0.3) v["p_disk_short_ppm"] = dd.pick({5000, 50000, 300000}); else if (w < 0.4) v["disk_capacity"] = r.range(0, r.p(0.5) ? 500 : 8000); else if (w < 0.44) v["p_disk_open_ppm"] = 500000;
  }
  if (is("C11")) { v["fast"] = 0; }
  v["clock_jumps"] = is("C12") ? r.p(0.75) : 0;
  v["p_jump_ppm"] = v["clock_jumps"] ? Draw{r, v}.pick({500, 3000, 20000}) : 0;
  v["check_leak"] = is("C09") || is("C10");
  if (is("C03") || is("C02")) { v["max_reactors"] = r.range(2, 8); if (r.p(0.5)) v["fast"] = 1; }
  if (is("C06") || is("C08")) { if (r.p(0.6)) v["p_stall_ppm"] = Draw{r, v}.pick({500, 3000, 10000}); }
}
static void draw_fed(const std::string &prof, Rng &r, std::map<std::string, i64> &v) {
  draw_common(r, v); Draw d{r, v};
  auto is = [&](const char *p) { return prof == p; };
  auto feat = [&](const char *k, double p) { v[k] = r.p(p); };
  v["nf"] = r.p(0.4) ? 2 : r.range(2, 4); v["threads"] = r.range(1, 3); v["cores"] = r.range(1, 8); v["argw"] = 1;
  v["max_reactors"] = r.range(2, 7); v["max_reactions"] = r.range(1, 3); v["max_inv"] = r.p(0.8) ? 80 : 200;
  feat("f_dl", 0.1); feat("f_multi", 0.3); feat("f_sparse", 0.3); feat("f_tok", 0.5); feat("f_spacing", 0.2); feat("f_stop", is("C14") ? 1 : 0.3); feat("f_phys", 0.3); feat("f_async", is("C14") ? 0.6 : 0.3); feat("f_dense", 0.3);
  feat("f_relay", 0.4); feat("f_netphys", is("C16") ? 0.6 : 0.25);
  v["p_zero_ppm"] = d.pick({0, 200000, 500000, 900000});
  v["decentralized"] = is("C18"); v["fast"] = 0; v["f_wd"] = v["f_modal"] = v["clock_jumps"] = 0;
  v["lat_ns"] = d.pick({5000, 50000, 500000, 3000000}); v["delay_unit_ns"] = d.pick({1000, 10000, 100000});
  if (v["f_netphys"] && v["lat_ns"] < 25000) v["lat_ns"] = 25000;   // a node may run up to 10 us early (MIN_SLEEP_DURATION); no message arrives in less
  v["p_net_delay_ppm"] = d.pick({0, 20000, 200000}); v["p_net_frag_ppm"] = d.pick({0, 0, 50000, 400000}); v["p_net_shortw_ppm"] = d.pick({0, 0, 50000, 300000}); v["p_net_eintr_ppm"] = d.pick({0, 0, 20000, 100000});
  v["p_part_ppm"] = d.pick({0, 0, 2000, 20000}); v["part_unit_ns"] = d.pick({10000, 100000, 1000000});
  v["start_spread_ns"] = d.pick({0l, 0l, 100000l, 20000000l, 3000000000l});
  if ((is("C17") || is("C15")) && r.p(0.1)) v["start_spread_ns"] = (v["f_netphys"] ? 30 : 250) * SEC_;
  v["clock_spread_ns"] = v["f_netphys"] ? 0 : d.pick({0l, 0l, 1000000l, 100000000l, 4000000000l});
  v["p_mem_ppm"] = d.pick({0, 0, 100, 500, 3000});
  v["f_big"] = r.p(0.3);
  v["p_connect_ppm"] = d.pick({0, 0, 20000, 300000}); v["p_bind_ppm"] = d.pick({0, 0, 0, 200000});
  if (is("C21")) {
    v["nf"] = r.p(0.6) ? 2 : 3; v["max_reactors"] = r.range(2, 4); v["max_inv"] = 40; feat("f_netphys", 0.5); v["adv"] = 1; v["csinit"] = r.p(0.5); v["auth"] = r.p(0.4); v["fake"] = r.p(0.1);
    if (v["f_netphys"] && v["lat_ns"] < 25000) v["lat_ns"] = 25000;
    if (v["f_netphys"]) v["clock_spread_ns"] = 0;
    v["start_spread_ns"] = d.pick({0, 100000, 1000000, 20000000});
  }
  if (is("C20")) {
    for (auto k : {"f_phys", "f_async", "f_netphys", "f_dl", "p_stall_ppm"}) v[k] = 0;
    v["nf"] = r.range(2, 3); v["max_reactors"] = r.range(2, 4); v["max_reactions"] = 2; v["max_inv"] = 60; v["f_timeout"] = 1; v["start_spread_ns"] = d.pick({0, 0, 100000, 20000000});
    v["cs_rti"] = r.p(0.7) ? 3 : 2; v["cs_mix"] = r.p(0.25); v["cs_period_ns"] = d.pick({1000000, 2000000, 5000000, 20000000}); v["cs_strict"] = r.p(0.6);
    v["clock_spread_ns"] = d.pick({0l, 300000l, 20000000l, 4000000000l}); v["cs_drift"] = d.pick({0, 20, 200, 5000});
    v["lat_ns"] = d.pick({5000, 50000, 500000, 3000000}); v["q_ns"] = d.pick({1, 10, 30, 100}) * MS; v["max_over_ns"] = 0;
    if (v["cs_strict"]) for (auto k : {"p_net_delay_ppm", "p_net_frag_ppm", "p_net_shortw_ppm", "p_net_eintr_ppm", "p_part_ppm"}) v[k] = 0;
    bool f = r.p(0.7); v["udp_unit_ns"] = d.pick({1000, 10000, 100000, 3000000});
    v["p_udp_loss_ppm"] = f ? d.pick({0, 20000, 200000, 700000}) : 0; v["p_udp_dup_ppm"] = f ? d.pick({0, 0, 20000, 300000}) : 0; v["p_udp_delay_ppm"] = f ? d.pick({0, 0, 50000, 300000}) : 0;
    v["p_udp_foreign_ppm"] = f ? d.pick({0, 0, 20000, 200000}) : 0;
    if (f && r.p(0.7)) { v["q_ns"] = d.pick({300, 1000, 2000}) * MS; v["cs_period_ns"] = d.pick({5, 20, 100}) * MS; }
    v["cs_heal_ns"] = f ? r.range(1, 500) * MS : 0; v["cs_steady"] = v["cs_strict"];
    bool quiet = !v["p_udp_dup_ppm"] && !v["p_udp_delay_ppm"] && !v["p_udp_foreign_ppm"];   // a datagram that waits behind a slow write counts as delayed
    v["cs_slow_ns"] = quiet && r.p(0.5) ? d.pick({200000, 1000000, 2500000}) : 0;
  }
  if (is("C18")) {
    v["f_dl"] = 0; v["f_phys"] = r.p(0.15); v["f_async"] = r.p(0.15); v["f_stop"] = r.p(0.15); v["sta_d"] = d.pick({0, 1, 10, 40, 200}) * MS; v["f_timeout"] = 1;
    v["clock_spread_ns"] = v["f_netphys"] ? 0 : d.pick({0l, 0l, 100000l, 5000000l, 100000000l});
    if (r.p(0.6)) v["p_stall_ppm"] = 0;
  }
  if (is("C19")) { v["loss"] = r.range(1, 4); v["f_timeout"] = 1; }
}
void draw_cfg(const std::string &prof, Rng &r) {
  C.v.clear(); bool fed = is_fed(prof) || (prof == "C22" && r.p(0.15));
  if (fed) draw_fed(prof, r, C.v); else draw_local(prof, r, C.v); for (auto &s : S.set) C.v[s.first] = s.second;
  if (prof == "C22" && fed) C.v["traced"] = 1;
}

static double p_jump; static u64 jumps_left = 0;
static void clock_jump_hook() {
  if (!jumps_left || !(p_jump > 0 || S.listed)) return;
  u32 j = choose(K_CLOCKJUMP, 24001, p_jump);
  if (!j) return;
  jumps_left--;
  i64 d = ((i64)((j - 1) % 4000) - 2000) * 5 * US; // up to +-10 ms
  int sc = (int)(j - 1) / 4000; if (sc == 5) d *= 1000000; else if (sc == 4) d *= 300; else if (sc == 3) d /= 500;   // up to +-10000 s, 3 s, 20 us
  LOGV("clock of node %d jumps by %ld ns", cur->node->id, d);
  node_clock_jump(cur->node, d);
}
static void dump_prog() {
  Prog &p = *G;
  printf("program: Q=%ld horizon=%ld timeout=%ld keepalive=%d fast=%d ms_limit=%d levels=%d\n", p.Q, p.horizon, p.timeout, p.keepalive, p.fast, p.ms_limit, p.n_levels);
  for (size_t i = 0; i < p.reactors.size(); i++) { auto &r = p.reactors[i]; printf(" reactor %zu node %d", i, r.node); if (r.n_modes) printf(" modes %d..%d initial %d", r.first_mode, r.first_mode + r.n_modes - 1, r.initial_mode); if (r.parent_mode >= 0) printf(" inside mode %d", r.parent_mode); if (r.reset_state) printf(" reset-state"); printf("\n"); }
  for (size_t i = 0; i < p.ports.size(); i++) { auto &q = p.ports[i]; printf(" port %zu reactor %d %s width %d type %s%s%s channels %d..\n", i, q.reactor, q.is_output ? "output" : "input", q.width, q.ptype ? "array" : "int", q.mut ? " mutable" : "", q.sparse ? " sparse" : "", q.first_chan); }
  for (size_t i = 0; i < p.chans.size(); i++) if (p.chans[i].src >= 0) printf(" connect %d -> %zu\n", p.chans[i].src, i);
  for (size_t i = 0; i < p.nets.size(); i++) { auto &n = p.nets[i]; printf(" net %zu: channel %d (node %d) -> action %d / channel %d (node %d) delay %ld%s\n", i, n.src_chan, n.src_node, n.action, n.dst_in_port_chan, n.dst_node, n.delay, n.physical ? " physical" : ""); }
  for (size_t i = 0; i < p.timers.size(); i++) printf(" timer %zu reactor %d offset %ld period %ld mode %d\n", i, p.timers[i].reactor, p.timers[i].offset, p.timers[i].period, p.timers[i].mode);
  for (size_t i = 0; i < p.actions.size(); i++) { auto &a = p.actions[i]; printf(" action %zu reactor %d %s min %ld spacing %ld policy %d type %s mode %d net %d\n", i, a.reactor, a.physical ? "physical" : "logical", a.min_delay, a.min_spacing, a.policy, a.ptype ? "array" : "int", a.mode, a.net_in); }
  for (size_t i = 0; i < p.watchdogs.size(); i++) printf(" watchdog %zu reactor %d min %ld\n", i, p.watchdogs[i].reactor, p.watchdogs[i].min_exp);
  static const char *tn[] = {"startup", "shutdown", "reset", "timer", "action", "input"};
  static const char *on[] = {"SET_V", "SET_T_NEW", "SET_T_FWD", "SCHED_V", "SCHED_NONE", "SCHED_T_NEW", "SCHED_T_FWD", "STOP", "MODE", "WD_START", "WD_STOP", "BURN", "CHECK_DL", "SPAWN", "JOIN"};
  for (size_t i = 0; i < p.reactions.size(); i++) {
    auto &r = p.reactions[i]; printf(" reaction %zu reactor %d #%d level %d mode %d deadline %ld net_kind %d triggers:", i, r.reactor, r.number, r.level, r.mode, r.deadline, r.net_kind);
    for (auto &t : p.trigs[i]) printf(" %s %d", tn[t.kind], t.id); printf(" reads:"); for (int s : p.srcs[i]) printf(" %d", s); printf(" writes:"); for (int s : p.outs[i]) printf(" %d", s); printf("\n");
    for (auto &u : p.rules[i]) printf("    %s: %s a=%d b=%d x=%ld when %% %u == %u%s\n", u.name.c_str(), on[u.op], u.a, u.b, u.x, u.mod, u.phase, S.drop.count(u.name) ? " (dropped)" : "");
  }
  for (size_t i = 0; i < p.wrules.size(); i++) for (auto &u : p.wrules[i]) printf("    watchdog %zu %s: %s a=%d x=%ld\n", i, u.name.c_str(), on[u.op], u.a, u.x);
  for (size_t i = 0; i < p.async.size(); i++) for (auto &s : p.async[i]) printf(" thread %zu: wait %ld op %d action %d extra %ld v %lx\n", i, s.wait, s.op, s.action, s.extra, s.v);
}
// The timeout in one of the units in which it is a whole number.
static void timeout_args(Node *n, i64 T) {
  static const struct { const char *name; i64 len; } U[] = {{"nsec", 1}, {"usec", US}, {"usecs", US}, {"msec", 1000 * US}, {"msecs", 1000 * US}, {"sec", SEC_}, {"secs", SEC_}};
  std::vector<int> ok; for (int i = 0; i < 7; i++) if (T % U[i].len == 0) ok.push_back(i);
  int u = ok[mix2(S.seed, 0x71e0) % ok.size()];
  n->args.push_back("-o"); n->args.push_back(std::to_string(T / U[u].len)); n->args.push_back(U[u].name);
}
void run_local() {
  Rng gr(mix2(S.seed, 0x9e4));
  G = new Prog; gen_local(*G, gr, C);
  if (S.verbose) dump_prog();
  Node *n = node_new("main", img_names[C.get("img")]);
  n->handle = image_handle(n->image, 0);
  n->args = {"prog"};
  if (C.get("threads") > 0 && C.get("argw")) { n->args.push_back("-w"); n->args.push_back(std::to_string(C.get("threads"))); }
  if (G->timeout >= 0) { timeout_args(n, G->timeout); }
  if (G->fast) { n->args.push_back("-f"); n->args.push_back("true"); }
  if (G->keepalive) { n->args.push_back("-k"); n->args.push_back("true"); }
  n->icfg["cores"] = C.get("cores", 4); n->icfg["traced"] = C.get("traced");
  p_jump = C.get("p_jump_ppm") * 1e-6; jumps_left = C.get("clock_jumps") ? 6 : 0;
  if (C.get("clock_jumps")) hook_yield = clock_jump_hook;
  node_start(n);
  run_all((C.get("clock_jumps") ? 200000 : 2000) * SEC_);
  check_local(0);
  if (C.get("traced")) check_trace(n, 0);
  if (C.get("check_leak")) {
    u64 first; u32 size;
    if (heap_find_payload(n, [](u64 v) { return Hs.payloads.count(v) > 0; }, &first, &size)) fail("leak", "a %u-byte payload (first word %lx) is still allocated after the program ended", size, first);
  }
  finish_ok();
}
// Decentralized coordination: how long each federate waits for messages before it advances, and before it takes an input for absent.
static std::vector<i64> sta;
static void draw_sta(Rng &r, int nf) {
  i64 d = C.get("sta_d"); sta.assign(nf, 0); bool staa = r.p(0.5);
  for (int k = 0; k < nf; k++) for (auto &n : G->nets) if (!n.physical && !n.zdc) { i64 x = sta[n.src_node] + d - (n.delay < 0 ? 0 : n.delay); if (x > sta[n.dst_node]) sta[n.dst_node] = std::min(x, nf * d); }
  for (auto &x : sta) if (r.p(0.2)) x = r.range(0, x);
  for (auto &n : G->nets) { i64 a = n.zdc ? d * r.range(1, nf) : staa && r.p(0.5) ? r.range(0, d) : 0; n.staa = n.delay > 0 ? std::max<i64>(0, a - n.delay) : a; }
}
static Node *fed_node(int i, int sync) {
  Node *n = node_new("fed" + std::to_string(i), C.get("auth") ? "afedc" : C.get("traced") ? "tfedc" : C.get("decentralized") ? "fedd" : sync == 3 ? "fedcs" : sync == 2 ? "fedci" : "fedc");
  n->handle = image_handle(n->image, i);
  n->args = {"prog", "-i", "Sim", "-r", "localhost:15045", "-k", "true"};
  n->args.push_back("-w"); n->args.push_back(std::to_string(C.get("threads")));
  i64 T = loss.kind == LOSS_EARLY && loss.fed == i ? loss.stop.t : G->timeout;
  if (T >= 0) { timeout_args(n, T); }
  n->icfg["cores"] = C.get("cores", 4); n->icfg["traced"] = C.get("traced"); n->icfg["fed"] = i; n->icfg["min_phys_out"] = G->min_phys_out(i); n->icfg["sta"] = sta.empty() ? 0 : sta[i]; if (sync) { n->icfg["clock_sync"] = sync; n->icfg["sample_ns"] = 7 * MS; }
  return n;
}
static void run_fed() {
  Rng gr(mix2(S.seed, 0x9e4));
  G = new Prog; gen_local(*G, gr, C);
  if (S.verbose) dump_prog();
  int nf = (int)C.get("nf"); loss_draw(gr);
  int cs = (int)C.get("cs_rti");
  if (C.get("decentralized")) draw_sta(gr, nf);
  for (int i = 0; i < nf; i++) { int s = cs; if (cs && C.get("cs_mix")) s = (int)gr.range(1, 3); fed_node(i, s); }
  Node *n = node_new("rti", "rti"); n->handle = image_handle("rti", 0); n->icfg["fed"] = nf; n->icfg["cores"] = C.get("cores", 4);
  n->args = {"rti", "-i", "Sim", "-n", std::to_string(nf), "-p", "15045", "-c", "off"}; if (C.get("traced")) n->args.push_back("-t");
  if (C.get("auth")) n->args.push_back("-a");
  if (C.get("csinit") || cs == 2) n->args[8] = "init";
  if (cs == 3) { n->args[8] = "on"; n->args.push_back("period"); n->args.push_back(std::to_string(C.get("cs_period_ns"))); }
  if (C.get("adv")) adv_add(gr, nf, C.get("auth"), C.get("fake"));
  for (auto m : nodes) {
    i64 sp = C.get("clock_spread_ns"); if (sp) m->clock_off = gr.range(-sp, sp);
    if (cs && m != n && C.get("cs_drift")) { m->drift_base = 0; m->drift = (double)C.get("cs_drift") * 1e-6 * (gr.p(0.5) ? 1 : -1); }
    sp = C.get("start_spread_ns"); i64 at = sp ? gr.range(0, m == n ? std::min(sp, 20 * SEC_) : sp) : 0;   // a federate gives up after one minute without a coordinator
    if (C.get("fake") && m == n) continue;   // a pretender takes its place
    if (at == 0) node_start(m); else { m->alive = true; timer_at(at, [m] { node_start(m); }); }
  }
  if (cs) { cs_start(nf, n); cs_tick(nf); }
  on_stuck = [nf](const char *) { fed_stuck(nf); };
  run_all(4000 * SEC_);
  if (C.get("adv")) { adv_check(nf); if (C.get("fake")) finish_ok(); }
  check_fed(nf);
  if (cs) cs_check(nf, Hs.start[0], G->timeout);
  if (C.get("traced")) for (auto m : nodes) if (!is_adv(m->id)) check_trace(m, m == n ? -1 : (int)m->icfg["fed"]);
  finish_ok();
}
void run_profile() {
  Rng cr(mix2(S.seed, 0xcf9));
  draw_cfg(S.profile, cr);
  if (S.verbose) { printf("config:"); for (auto &x : C.v) printf(" %s=%ld", x.first.c_str(), x.second); printf("\n"); }
  hook_clock_read = on_clock_read;
  kernel_start(); sync_start(); disk_start();
  if (C.get("nf")) { net_start(); run_fed(); }
  run_local();
  abort();
}
