// Generated programs, their body semantics, the observed history and the sequential reference.
#pragma once
#include "sim.h"

struct Tag { i64 t; u32 m; };
inline bool operator<(const Tag &a, const Tag &b) { return a.t != b.t ? a.t < b.t : a.m < b.m; }
inline bool operator==(const Tag &a, const Tag &b) { return a.t == b.t && a.m == b.m; }
inline bool operator!=(const Tag &a, const Tag &b) { return !(a == b); }
inline bool operator<=(const Tag &a, const Tag &b) { return !(b < a); }
std::string ts(const Tag &t);
inline Tag delay_tag(Tag a, i64 d) { if (d < 0) return a; if (d == 0) return Tag{a.t, a.m + 1}; return Tag{a.t + d, 0}; }

struct Rule { int op, a, b; i64 x; u32 mod, phase; std::string name; };
struct AsyncStep { i64 wait; int op, action; i64 extra; u64 v; i64 len; };

struct Prog {
  std::vector<sp_reactor> reactors; std::vector<sp_port> ports; std::vector<sp_chan> chans; std::vector<sp_timer> timers;
  std::vector<sp_action> actions; std::vector<sp_watchdog> watchdogs; std::vector<sp_mode> modes; std::vector<sp_reaction> reactions; std::vector<sp_net> nets;
  std::vector<std::vector<int>> dsts; std::vector<std::vector<sp_ref>> trigs; std::vector<std::vector<int>> srcs, outs;
  std::vector<std::vector<Rule>> rules;            // per reaction
  std::vector<std::vector<Rule>> wrules;           // per watchdog
  std::vector<std::vector<AsyncStep>> async;       // threads
  std::vector<int> async_node;
  int n_levels = 1;
  i64 Q = MS, timeout = -1, horizon = 20 * MS;
  bool keepalive = false, fast = false, big = false;
  int ms_limit = 3;
  std::vector<int> topo;                           // reactions in a sequential order
  std::vector<std::vector<int>> ups;               // direct upstream reactions (writers of inputs)
  int new_reactor(int node = 0); int new_port(int r, bool out, int width, int ptype);
  int new_timer(int r, i64 off, i64 per); int new_action(int r, bool phys, int ptype, i64 d);
  int new_reaction(int r);
  bool connect_net(int out_chan, int in_chan, i64 delay, bool physical, bool fwd);
  void finish_nets(int nf, bool p2p_all);          // port numbers, zero-delay cycles
  int net_reaction(int net, int kind) const;       // index of a reaction of a network connection
  i64 min_phys_out(int node) const;                // minimum delay from a physical action to a network output
  bool connect(int out_chan, int in_chan);         // false when it would create a causality cycle
  void finish();                                   // levels, pointers
  bool acyclic();
  sp_prog sp;
};
extern Prog *G;

struct InV { int kind, id; bool present, has; i64 len; u64 val, first; };
struct Body { std::vector<sp_op> ops; u64 nstate; };
// Pure semantics of a body. `tok_of[i]`: input i carries a token (array payload).
Body body_eval(const Prog &p, int rid, int kind, Tag rel, u64 state, const std::vector<InV> &in);
u64 payload_hash(u64 v, i64 len, int cls);          // hash of the contents of a payload as the glue computes it

struct Inv {                                        // one observed invocation
  int node, rid, kind; Tag tag; u64 state; std::vector<InV> in; u64 b_seq, e_seq; i64 b_clk, e_clk, b_idle; i64 last_clk; u64 last_clk_seq; int fiber; i64 b_sim, e_sim; Tag itag; bool has_itag; u64 nstate;
  i64 b_true = 0, e_idle = 0;
};
struct SchedCall { int node, action, fiber; u64 v; i64 extra; u64 s0, s1; i64 c0, c1; i64 idle1; Tag at; int by; };
struct StopCall { int node, rid, fiber; u64 s0, s1; Tag at; i64 idle1 = 0, c1 = 0; };
struct WdNote { int kind, wd; i64 a, hi; u64 seq; i64 clk, idle; };
struct NetEv { int what, net, node, fiber; Tag tag; i64 len; u64 hash, first; Tag itag; u64 seq; i64 clk, sim; };
struct Hist {
  std::vector<Inv> inv; std::vector<SchedCall> sched; std::vector<StopCall> stops; std::vector<WdNote> wd;
  std::map<int, i64> start;                         // per node start time (absolute)
  std::vector<NetEv> net;
  std::map<int, std::vector<int>> open;             // fiber -> stack of open invocations
  std::map<u64, int> payloads;                      // first word of every payload created
};
extern Hist Hs;

struct RefInv { int rid, kind; Tag tag; u64 state; std::vector<InV> in; };
struct RefMsg { int net; Tag sent, recv; i64 len; u64 first; Tag want{NEVER_T, 0}; };   // want: the tag the message carries (decentralized)
struct RefOut { std::vector<RefInv> inv; std::vector<RefMsg> msgs; Tag stop; bool capped = false; std::vector<Tag> tags; std::map<u64, Tag> lost; };
struct RefIn {
  bool prerun = false;
  std::map<u64, Tag> phys;                          // payload -> observed tag of a physical event
  std::map<std::pair<int, std::pair<i64, u32>>, int> kinds;   // (reaction, tag) -> observed handler kind
  bool ignore_stop = false;                         // stop requests have no effect of their own (federated)
  bool has_stop = false; Tag stop;                  // stop tag imposed from outside
  std::vector<std::pair<u64, int>> async_ev;        // payload, action of events scheduled from outside of reactions
  std::map<u64, InV> async_val;
  bool dec = false;                                 // decentralized: the receive tags of all messages are observed
  std::map<int, std::vector<Tag>> netphys;          // observed tags of the messages of physical connections
  size_t cap = 1000000;
  int node = -1;
  std::map<int, Tag> node_stop;                     // nodes that stop earlier
  std::map<int, size_t> net_cap;                    // number of messages of a connection that arrive (the last ones are lost)
};
RefOut ref_run(const Prog &p, const RefIn &in);

void gen_local(Prog &p, Rng &r, const Cfg &c);
void check_order(int node); void check_deadlines(int node); void check_phys(int node, RefIn &ri, bool exact); void check_compare(int node, const RefOut &ro, const Tag *lost_at = nullptr, Tag agreed = Tag{0, 0});
void check_local(int node);                         // all history checks of an unfederated run
void check_fed(int nf); void fed_stuck(int nf);
// The loss of one federate.
enum { LOSS_NONE, LOSS_KILL, LOSS_RESET, LOSS_EXIT, LOSS_EARLY };
struct Loss { int kind = 0, fed = -1, mode = 0, pct = 0, peer = -1; i64 n = 0; bool fired = false; i64 sim = 0; Tag stop{0, 0}; };
extern Loss loss;
void loss_draw(Rng &r); void loss_start(Tag t); bool loss_exit(int node);
// Processes that have no right to join.
void adv_add(Rng &r, int nf, bool auth, bool fake); void adv_check(int nf); void adv_silent(); bool is_adv(int node); void adv_capture(int from, const char *d, size_t n); 
i64 loss_write(Node *from, Node *to, size_t n);     // bytes of this write that still go out before the federate is lost, or -1

