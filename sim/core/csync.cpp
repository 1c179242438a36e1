// C20: what each federate's clock shows against the coordinator's while clock synchronisation runs.
#include "net.h"
#include "wire.h"
#include <cmath>
#include <cstring>
struct CsNode {
  bool on = false;                       // takes part in the periodic synchronisation
  bool synced = false; i64 t_sync = 0, t_first = -1;   // the initial synchronisation has ended
  i64 lo = 0, hi = 0, off_max = 0; bool seen = false; u64 changes = 0;   // the offset, as an interval
  i64 base = 0;                          // |error| allowed at the end of the initial synchronisation
  i64 t_t1 = -1, t_probe = -1; u64 t1s = 0, probes = 0;
  i64 e_heal = -1; u64 windows = 0; i64 t_win = 0, w_max = 0, e_last = 0; u64 ch_heal = 0;
};
static CsNode cs[16]; static i64 heal = FOREVER_T, first_exit = FOREVER_T; static Node *RTI_;
i64 cs_udp_max, cs_tcp_max; bool cs_active;
static const i64 E0 = 150 * US;
void cs_start(int nf, Node *rti) {
  cs_active = true; RTI_ = rti;
  for (int i = 0; i < nf; i++) { Node *n = nodes[i]; cs[i].on = n->icfg["clock_sync"] == 3 && C.get("cs_rti") == 3; }
}
// A federate's writes take a while before the data leaves: the protocol measures that time and allows for it.
void cs_slow_write() {
  static const i64 d = C.get("cs_slow_ns");
  if (cs_active && d && cur && cur->node && cur->node != RTI_ && cs[cur->node->id].t_first >= 0) sim_sleep(d, false, "slow write");
}
bool cs_udp_faults() { return now_ns < heal; }
// start time of the federation known (on the coordinator's clock)
void cs_fed_start(i64 tag) {
  if (!cs_active || heal != FOREVER_T) return;
  i64 s = now_ns + (tag - node_clock(RTI_)); heal = s + C.get("cs_heal_ns");
}
static i64 drift_since(Node *n, i64 t) { return (i64)(std::fabs(n->drift) * (double)(now_ns - t)) + 1; }
void cs_synced(Node *n) {
  CsNode &c = cs[n->id]; c.synced = true; c.t_sync = now_ns; i64 b0 = std::llabs(node_clock(RTI_) - node_clock(n));
  c.base = drift_since(n, c.t_first) + (C.get("cs_strict") ? E0 : std::max(b0, cs_tcp_max + E0));
  probe(PR_CS_INIT);
}
void cs_tcp(int to) { if (cs_active && to >= 0 && to < 16 && cs[to].t_first < 0) cs[to].t_first = now_ns; }
void cs_reading(Node *n, i64 v, i64 raw0, i64 raw1, i64 sim0) {
  CsNode &c = cs[n->id]; if (raw1 - raw0 > 20 * US) return;
  i64 lo = v - raw1, hi = v - raw0;
  if (!c.seen) { c.seen = true; c.lo = lo; c.hi = hi; }
  else if (lo > c.hi + 2 || hi < c.lo - 2) { c.lo = lo; c.hi = hi; c.changes++; LOGV("clock offset now %ld", lo); if (cs_active && c.synced && heal != FOREVER_T && now_ns > heal) { c.ch_heal++; probe(PR_CS_ADJ); } }
  else { c.lo = std::max(c.lo, lo); c.hi = std::min(c.hi, hi); if (c.lo > c.hi) { c.lo = lo; c.hi = hi; } }
  c.off_max = std::max(c.off_max, hi);
  if (!cs_active || !c.synced || RTI_->exited) return;
  i64 r1 = node_clock(RTI_), r0 = r1 - (now_ns - sim0), e = v < r0 ? v - r0 : v > r1 ? v - r1 : 0, a = std::llabs(e);   // error against the coordinator's clock
  c.e_last = a;
  i64 b = std::max(c.base, c.on ? cs_udp_max + E0 : 0) + drift_since(n, c.t_sync);
  if (a > b) fail("clocksync", "the clock of federate %d is %ld ns off the coordinator's, allowed %ld (%ld ms after the initial synchronisation)", n->id, e, b, (now_ns - c.t_sync) / MS);
  if (c.on && heal != FOREVER_T && now_ns > heal && C.get("cs_steady")) {
    if (c.e_heal < 0) { c.e_heal = a; c.probes = 0; c.windows = 0; c.t_win = now_ns; return; }
    u64 k = c.windows / 2 > 2 ? c.windows / 2 - 2 : 0;
    i64 w = std::max(c.w_max, now_ns - c.t_win), s = (i64)(std::pow(0.9, (double)k) * (double)c.e_heal) + (i64)(24 * std::fabs(n->drift) * (double)w) + E0;
    if (a > s) fail("clocksync", "the clock of federate %d is %ld ns off the coordinator's, allowed %ld (%lu undisturbed windows, at their start %ld)", n->id, e, s, c.windows, c.e_heal);
  }
}
i64 cs_off_max(Node *n) { return cs[n->id].off_max; }
void cs_dgram(Node *from, Node *to, const std::string &d, bool arrived) {
  if (!cs_active || d.empty() || !to) return;
  int type = (unsigned char)d[0];
  if (!arrived && type == W_T1 && from == RTI_ && d.size() == 9) {
    CsNode &c = cs[to->id]; c.t1s++; probe(PR_CS_ROUND);
    c.t_t1 = now_ns;
  }
  if (arrived && type == W_PROBE && to != RTI_) { CsNode &c = cs[to->id]; c.t_probe = now_ns; if (++c.probes % 10 == 0) { c.windows++; c.w_max = std::max(c.w_max, now_ns - c.t_win); c.t_win = now_ns; } }
}
// Once datagrams are no longer lost, rounds go on without gaps as long as every federate takes part.
static void cs_gap(int nf, i64 now) {
  if (heal == FOREVER_T || !C.get("cs_strict")) return;
  i64 calm = heal + 2300 * MS * nf + (i64)C.get("udp_unit_ns") * 1000;   // replies that were lost may still be waited for
  i64 lim = C.get("cs_period_ns") + nf * (4 * C.get("lat_ns") + 20 * MS) + C.get("stall_unit_ns") * 100 + 200 * MS;
  for (int i = 0; i < nf; i++) if (cs[i].on) {
    CsNode &c = cs[i];
    if (now - std::max(calm, c.t_t1) > lim) fail("clocksync", "the coordinator has sent no clock synchronisation message to federate %d for %ld ms", i, (now - std::max(calm, c.t_t1)) / MS);
    if (now - std::max(calm, c.t_probe) > 3 * lim + 100 * MS) fail("clocksync", "no clock synchronisation round with federate %d was completed for %ld ms", i, (now - std::max(calm, c.t_probe)) / MS);
  }
}
void cs_tick(int nf) {
  for (int i = 0; i <= nf; i++) if (nodes[i]->exited) return;
  cs_gap(nf, now_ns);
  timer_at(now_ns + 50 * MS, [nf] { cs_tick(nf); });
}
void cs_check(int nf, i64 start, i64 stop) {
  for (int i = 0; i < nf; i++) {
    CsNode &c = cs[i]; if (S.verbose) printf("csync fed%d: mode %ld synced %d changes %lu t1s %lu probes %lu windows %lu after heal %lu, last error %ld, e_heal %ld w_max %ld\n", i, nodes[i]->icfg["clock_sync"], c.synced, c.changes, c.t1s, c.probes, c.windows, c.ch_heal, c.e_last, c.e_heal, c.w_max);
    if (C.get("cs_strict") && !C.get("cs_mix") && c.synced && nodes[i]->exited) {
      i64 due = start + stop + 3 * SEC_ - node_clock(RTI_) + now_ns;
      if (nodes[i]->exit_time > due + 2 * c.base) fail("late", "federate %d ended %ld ms after its stop tag", i, (nodes[i]->exit_time - due) / MS + 3000);
    }
  }
}
