// Internal interface of the deterministic simulator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <unordered_map>
#include <functional>
#include <algorithm>
#include "../abi.h"

typedef int64_t i64;
typedef uint64_t u64;
typedef uint32_t u32;

static const i64 NEVER_T = INT64_MIN, FOREVER_T = INT64_MAX;
static const i64 US = 1000, MS = 1000000, SEC_ = 1000000000LL;

inline u64 mix64(u64 x) {
  x += 0x9e3779b97f4a7c15ULL; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL; return x ^ (x >> 31);
}
inline u64 mix2(u64 a, u64 b) { return mix64(a * 0x9E3779B97F4A7C15ULL ^ mix64(b)); }
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(mix64(seed)) {}
  u64 next() { s += 0x9e3779b97f4a7c15ULL; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  u64 below(u64 n) { return n ? next() % n : 0; }
  i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
  double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  bool p(double x) { return u() < x; }
};

// ---------------------------------------------------------------- decisions
#define KINDS(X) X(SCHED) X(PREEMPT) X(SIGNAL) X(SPURIOUS) X(STALL) X(OVERSLEEP) X(EINTR_SLEEP) X(CLOCKJUMP) \
  X(NET_DELAY) X(NET_FRAG) X(NET_SHORTW) X(NET_EINTR) X(NET_RESET) X(UDP_LOSS) X(UDP_DUP) X(UDP_DELAY) X(DISK_ERR) X(DISK_SHORT) \
  X(DISK_OPEN) X(KILL) X(PARTITION) X(ADVERSARY) X(CONNECT) X(ACCEPT) X(BURN) X(BIND) X(MISC) X(UDP_FOREIGN)
enum Kind {
#define X(n) K_##n,
  KINDS(X)
#undef X
  K_COUNT
};
extern const char *kind_name[K_COUNT];

struct Override { int kind; u32 idx; u32 val; };

// ---------------------------------------------------------------- results (shared memory)
struct Result {
  int done;                 // 1 when the child finished the run by itself
  int fail;                 // a violation was recorded
  char cls[48];
  char msg[1400];
  u64 hash;                 // hash of the whole execution
  u64 beh_hash;             // hash of the interleaving (context switch sequence)
  u64 prog_hash;
  u64 steps, switches, accesses;
  i64 sim_ns;
  u64 fired[K_COUNT];
  u64 asked[K_COUNT];
  u64 probes[64];
  u64 reactions, tags;
  int known;                // number of known findings observed
  char known_id[8][64];
  u32 n_over;
  Override over[1];         // recorded decisions (flexible)
};
extern Result *R;

// ---------------------------------------------------------------- configuration of one run
struct Cfg {
  std::map<std::string, i64> v;
  i64 get(const std::string &k, i64 d = 0) const { auto i = v.find(k); return i == v.end() ? d : i->second; }
};
struct RunSpec {
  std::string profile;
  u64 seed = 1;
  bool listed = false;                 // only listed decisions differ from their default
  std::vector<Override> over;
  std::map<std::string, i64> set;      // configuration overrides
  std::set<std::string> drop;          // program elements removed by the minimiser
  bool record = false;
  bool verbose = false;
};
extern RunSpec S;
extern Cfg C;

u32 choose(Kind k, u32 n, double p);   // 0 with probability 1-p, else 1..n-1
u32 choose_val(Kind k, u32 n, u32 want);  // the caller supplies the random wish
bool flip(Kind k, double p);

// ---------------------------------------------------------------- fibers
enum FState { F_RUN, F_BLOCK, F_DONE };
struct Node;
struct Fiber {
  int id = 0; Node *node = nullptr;
  void *sp = nullptr; char *stack = nullptr;
  FState st = F_RUN;
  int err = 0;
  const char *why = "";
  u64 wake_gen = 0;
  int wake_reason = 0;
  void *(*fn)(void *) = nullptr; void *arg = nullptr; void *ret = nullptr;
  std::function<void()> native;
  bool stalled = false;
  bool joined = false, detached = false;
  std::vector<Fiber *> joiners;
  std::map<void *, void *> tls;
  u64 prio = 0;
  i64 last_clock = NEVER_T; u64 last_clock_seq = 0;
  i64 blocked_until = FOREVER_T;
  int spin = 0;
};
struct Node {
  int id; std::string name, image;
  void *handle = nullptr;
  Fiber *main = nullptr;
  bool alive = false, exited = false, killed = false;
  int status = 0;
  bool exiting = false;
  i64 max_clock = NEVER_T; /* largest clock value just before a jump */ i64 clock_off = 0; double drift = 0; i64 drift_base = 0;
  std::vector<void (*)(void)> atexits;
  std::map<std::string, std::string> scfg;
  std::map<std::string, i64> icfg;
  std::vector<std::string> args;
  std::string log;
  char *heap = nullptr, *heap_end = nullptr, *hp = nullptr;
  i64 busy_mark = 0;
  i64 idle_ns = 0;         // simulated time skipped while every fiber of the node waited and none was stalled
  int n_stalled = 0;
  i64 exit_time = 0;
  void *extra = nullptr;   // socket table
  bool sigpipe_ign = false;
  u64 allocs = 0;
};
extern Fiber *cur;
extern std::vector<Fiber *> fibers;
extern std::vector<Node *> nodes;
extern i64 now_ns;            // true simulated time
extern u64 gseq;              // global event sequence number
extern bool in_sim;

void kernel_init();
Node *node_new(const std::string &name, const std::string &image_path);
void node_start(Node *n);
void node_kill(Node *n);
Fiber *fiber_native(Node *n, const std::string &name, std::function<void()> f);
Fiber *fiber_thread(Node *n, void *(*fn)(void *), void *arg);
void run_all(i64 limit_ns);                      // runs until every node ended, deadlock, or limits
void yield_point();                              // scheduling point
void block(const char *why);                     // current fiber waits
int block_until(i64 t, const char *why);         // 0 woken, 1 timed out
void wake(Fiber *f, int reason = 0);
u64 timer_at(i64 t, std::function<void()> f);
void timer_cancel(u64 id);
void sim_sleep(i64 ns, bool counts_as_busy, const char *why);
i64 node_clock(Node *n);
i64 node_clock_to_sim(Node *n, i64 t);
void node_clock_jump(Node *n, i64 delta);
void cost(i64 ns);
void node_do_exit(int status);
[[noreturn]] void fail(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void finish_ok();
void logf_(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void hash_mix(u64 x);
#define LOGV(...) do { if (S.verbose) logf_(__VA_ARGS__); } while (0)
void probe(int i);
void progress();
extern std::set<std::string> known_ids;   // findings listed in known_findings.txt
bool known_finding(const char *id);      // true (and recorded) when the finding is listed
std::string describe_blocked();

// heap
void heap_check(const void *p, size_t n, int write, const char *what);
void *heap_alloc(Node *n, size_t sz, bool zero);
void heap_free(void *p);
size_t heap_size(void *p);
bool heap_live(const void *p);
u64 heap_id(const void *p);
struct HeapBlk { u64 magic; u32 size; u32 state; u64 serial; void *pc; };
extern i64 preempt_countdown;

// simulated time limits
extern i64 limit_sim_ns; extern u64 limit_access, limit_steps;
extern std::function<void(const char *why)> on_stuck;   // called instead of failing, may return to fail generically

enum { PR_TIMEDOUT_WAIT = 0, PR_SPURIOUS, PR_CONTENDED, PR_STALL, PR_EINTR, PR_PHYS, PR_DL_HANDLER, PR_DL_BODY, PR_STOP_REQ, PR_STARVE,
  PR_MODE_RESET, PR_MODE_HIST, PR_WD_FIRE, PR_WD_STOP, PR_TOKEN_FWD, PR_WCOPY, PR_MICROSTEP, PR_DEFER, PR_DROP, PR_REPLACE, PR_TIMEOUT_STOP,
  PR_SPARSE_OVF, PR_CHAIN, PR_PARALLEL, PR_ASYNC, PR_ASYNC_LOST, PR_NET_MSG, PR_NET_FRAG, PR_PTAG, PR_STP, PR_ABSENT, PR_RESET_CONN, PR_KILLED,
  PR_TRACE_REC, PR_DISK_FAIL, PR_CLKJUMP, PR_CS_ROUND, PR_AUTH, PR_REJECT, PR_FEDSTOP, PR_LEFT_BEFORE_GRANT, PR_P2P, PR_LATE_MSG, PR_HELD_MSG, PR_MODE, PR_MODE_START, PR_MODE_DROP, PR_MODE_SUSPEND, PR_LOSS, PR_CUT_OFF, PR_ADV_TRY, PR_ADV_REPLY, PR_ADV_REJECT, PR_ADV_FAKE, PR_CS_INIT, PR_CS_ADJ, PR_CS_FOREIGN, PR_COUNT };
extern const char *probe_name[];

// entry points of the modules
void kernel_start(); void sync_start(); void disk_start(); void net_start(); void heap_init(); void set_max_over(u32);
extern void (*hook_yield)(); extern void (*hook_node_exit)(Node *); extern void (*hook_clock_read)(Node *, Fiber *, i64);
void draw_cfg(const std::string &profile, Rng &r);     // fills C
[[noreturn]] void run_profile();                       // executes one run in this process
void *image_handle(const std::string &name, int copy);
std::vector<std::string> profile_images(const std::string &profile);
bool heap_find_payload(Node *n, const std::function<bool(u64)> &is_payload, u64 *first, u32 *size);
