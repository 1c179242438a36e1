// Fibers, virtual time, the seeded scheduler, decisions.
#include "sim.h"
#include <cstdarg>
#include <cmath>
#include <cerrno>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <dlfcn.h>
#include <ucontext.h>

const char *kind_name[K_COUNT] = {
#define X(n) #n,
  KINDS(X)
#undef X
};
const char *probe_name[] = {"timed_wait_timeout", "spurious_wakeup", "contended_lock", "stall", "eintr", "physical_event", "deadline_handler", "deadline_body",
  "stop_request", "starvation_stop", "mode_reset", "mode_history", "watchdog_fired", "watchdog_stopped", "token_forwarded", "writable_copy", "microstep",
  "defer", "drop", "replace", "timeout_stop", "sparse_overflow", "chain", "parallel_reactions", "async_event", "async_after_stop", "net_message",
  "net_fragment", "ptag", "stp_violation", "port_absent", "reset_connection", "killed_federate", "trace_record", "disk_fault", "clock_jump", "clock_sync_round",
  "authenticated", "rejected_join", "federated_stop", "left_before_stop_grant", "p2p_message", "late_message", "held_back_message", "mode_transition", "mode_startup", "mode_event_discarded", "mode_event_suspended", "federate_lost", "cut_off_federate", "join_attempt", "join_attempt_answered", "join_attempt_rejected", "false_coordinator", "clock_sync_initial", "clock_adjusted", "foreign_datagram", nullptr};

Result *R; RunSpec S; Cfg C;
Fiber *cur; std::vector<Fiber *> fibers; std::vector<Node *> nodes;
i64 now_ns = 0; u64 gseq = 0; bool in_sim = false;
i64 limit_sim_ns = 1000 * SEC_; u64 limit_access = 300000000, limit_steps = 8000000, progress_acc = 0;
void progress();
std::function<void(const char *)> on_stuck;
i64 preempt_countdown = INT64_MAX;

static Fiber root;
static u64 steps = 0, switches = 0, acc_done = 0; static i64 cd_start = 0;
static u64 H = 0x1234, HB = 0x77;
void hash_mix(u64 x) { H = mix2(H, x); }
static u64 total_acc() { return acc_done + (u64)(cd_start - preempt_countdown); }
void progress() { progress_acc = total_acc(); }

// ---------------------------------------------------------------- logging / results
void logf_(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  fprintf(stdout, "[%12.6f n%d f%d] ", now_ns / 1e6, cur && cur->node ? cur->node->id : -1, cur ? cur->id : -1);
  vfprintf(stdout, fmt, ap); fputc('\n', stdout); va_end(ap);
}
void probe(int i) { R->probes[i]++; }
std::set<std::string> known_ids;
bool known_finding(const char *id) {
  if (!known_ids.count(id)) return false;
  for (int i = 0; i < R->known; i++) if (!strcmp(R->known_id[i], id)) return true;
  if (R->known < 8) snprintf(R->known_id[R->known++], 64, "%s", id);
  return true;
}
static void fill_result() {
  R->hash = H; R->beh_hash = HB; R->steps = steps; R->switches = switches; R->accesses = total_acc(); R->sim_ns = now_ns;
}
void fail(const char *cls, const char *fmt, ...) {
  static int again = 0;
  if (again++) _exit(3);
  va_list ap; va_start(ap, fmt);
  snprintf(R->cls, sizeof R->cls, "%s", cls);
  vsnprintf(R->msg, sizeof R->msg, fmt, ap);
  va_end(ap);
  R->fail = 1; R->done = 1; hash_mix(0xdead); for (const char *p = cls; *p; p++) hash_mix(*p);
  fill_result();
  if (S.verbose) {
    printf("FAIL class=%s %s\n", R->cls, R->msg);
    for (auto n : nodes) if (n->log.size()) { std::string &l = n->log; printf("--- output of %s (last part)\n%s\n", n->name.c_str(), l.substr(l.size() > 4000 ? l.size() - 4000 : 0).c_str()); }
    fflush(stdout);
  }
  _exit(0);
}
void finish_ok() {
  R->done = 1; fill_result();
  if (S.verbose) { for (auto n : nodes) if (n->log.size()) { std::string &l = n->log; printf("--- output of %s (last part)\n%s\n", n->name.c_str(), l.substr(l.size() > 4000 ? l.size() - 4000 : 0).c_str()); } }
  if (S.verbose) { printf("OK hash=%016lx steps=%lu switches=%lu accesses=%lu sim=%.6fms reactions=%lu tags=%lu\n", H, steps, switches, total_acc(), now_ns / 1e6, R->reactions, R->tags); fflush(stdout); }
  _exit(0);
}

// ---------------------------------------------------------------- decisions
static u32 kcount[K_COUNT];
static std::unordered_map<u64, u32> omap;
static std::vector<u32> preempts; static size_t preempt_i = 0;
static Rng *krng[K_COUNT];
static u32 max_over = 0;
static void record(int k, u32 idx, u32 val) {
  if (S.record && R->n_over < max_over) R->over[R->n_over++] = Override{k, idx, val};
}
void set_max_over(u32 m) { max_over = m; }
u32 choose_val(Kind k, u32 n, u32 want) {
  u32 idx = kcount[k]++;
  R->asked[k]++;
  u32 v;
  if (S.listed) { auto it = omap.find((u64)k << 32 | idx); v = it == omap.end() ? 0 : it->second; }
  else v = want;
  if (v >= n) v = n ? v % n : 0;
  if (v) { if (k != K_SCHED) R->fired[k]++; record(k, idx, v); H = mix2(H, (u64)k << 40 ^ (u64)idx << 8 ^ v); }
  return v;
}
u32 choose(Kind k, u32 n, double p) {
  u32 want = 0;
  if (!S.listed && p > 0 && n > 1 && krng[k]->p(p)) want = 1 + krng[k]->below(n - 1);
  return choose_val(k, n, want);
}
bool flip(Kind k, double p) { return choose(k, 2, p) != 0; }

// ---------------------------------------------------------------- strategy
static int strat; static double p_switch, p_stall, p_mem; static Rng *srng;
static std::vector<u64> pct_points; static size_t pct_i = 0; static u64 pct_low = 1000;
static u64 stall_unit = 50 * US;

// ---------------------------------------------------------------- fiber switching
extern "C" void fiber_switch(void **save, void *to);
asm(R"(
.text
.globl fiber_switch
.type fiber_switch,@function
fiber_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size fiber_switch,.-fiber_switch
.globl fiber_entry
.type fiber_entry,@function
fiber_entry:
  xorl %ebp,%ebp
  andq $-16,%rsp
  call fiber_main
  ud2
)");
extern "C" void fiber_entry();
static const size_t STACK = 512 * 1024;
static char *stack_base = (char *)0x200000000000ULL; static const int MAXF = 400;
static std::vector<int> free_stacks; static int next_stack = 0;
static char *zombie = nullptr;

static void switch_to(Fiber *f) {
  if (f == cur) return;
  Fiber *old = cur;
  old->err = errno;
  cur = f; switches++; HB = mix2(HB, f->id); H = mix2(H, f->id);
  fiber_switch(&old->sp, f->sp);
  errno = cur->err;
}
static void reset_countdown();
static void resched();
static void fiber_end() {
  cur->st = F_DONE;
  for (auto j : cur->joiners) wake(j);
  cur->joiners.clear();
  if (cur->node && cur->node->main == cur && cur->node->alive) node_do_exit(cur->node->status);
  resched();
  abort();
}
extern "C" void fiber_main() {
  errno = 0;
  Fiber *f = cur;
  if (f->native) f->native();
  else f->ret = f->fn(f->arg);
  fiber_end();
}
static Fiber *fiber_new(Node *n) {
  Fiber *f = new Fiber; f->id = (int)fibers.size(); f->node = n;
  int si;
  if (!free_stacks.empty()) { si = free_stacks.back(); free_stacks.pop_back(); }
  else si = next_stack++;
  if (si >= MAXF) fail("exhausted", "too many threads");
  f->stack = stack_base + (size_t)si * STACK;
  u64 *top = (u64 *)(f->stack + STACK - 64);
  top = (u64 *)((u64)top & ~15ULL);
  *--top = 0; *--top = (u64)(void *)fiber_entry;
  for (int i = 0; i < 6; i++) *--top = 0;
  f->sp = top;
  f->prio = srng->next() | (1ULL << 63);
  fibers.push_back(f);
  return f;
}
Fiber *fiber_native(Node *n, const std::string &name, std::function<void()> fn) { (void)name; Fiber *f = fiber_new(n); f->native = fn; return f; }
Fiber *fiber_thread(Node *n, void *(*fn)(void *), void *arg) { Fiber *f = fiber_new(n); f->fn = fn; f->arg = arg; return f; }

// ---------------------------------------------------------------- timers
struct Timer { i64 t; u64 seq; std::function<void()> f; };
static std::map<std::pair<i64, u64>, std::function<void()>> timers; static std::unordered_map<u64, i64> timer_when; static u64 tseq = 1;
u64 timer_at(i64 t, std::function<void()> f) { u64 id = tseq++; timers.emplace(std::make_pair(t, id), std::move(f)); timer_when[id] = t; return id; }
void timer_cancel(u64 id) { auto i = timer_when.find(id); if (i != timer_when.end()) { timers.erase({i->second, id}); timer_when.erase(i); } }
static void fire_timers() {
  while (!timers.empty() && timers.begin()->first.first <= now_ns) {
    auto it = timers.begin(); auto f = std::move(it->second); timer_when.erase(it->first.second); timers.erase(it); f();
  }
}
void cost(i64 ns) { now_ns += ns; }

std::string describe_blocked() {
  std::string s;
  for (auto f : fibers) if (f->st != F_DONE && f->node && f->node->alive) {
    char b[160]; snprintf(b, sizeof b, " [node %s fiber %d%s %s%s]", f->node->name.c_str(), f->id, f == f->node->main ? "(main)" : "", f->st == F_RUN ? "runnable" : "waits: ", f->st == F_RUN ? "" : f->why); s += b;
    if (s.size() > 1000) break;
  }
  return s;
}
static bool anyalive() { for (auto n : nodes) if (n->alive) return true; return false; }
static void stuck(const char *why) {
  if (on_stuck) on_stuck(why);
  fail(why, "%s:%s", why, describe_blocked().c_str());
}
static void check_limits() {
  if (steps > limit_steps || total_acc() > limit_access || total_acc() > progress_acc + 30000000) stuck("hang");
  if (now_ns > limit_sim_ns) stuck("hang");
}
static u32 strategy(std::vector<Fiber *> &l, bool cur_first) {
  if (S.listed) return 0;
  switch (strat) {
  case 0: if (cur_first && !srng->p(p_switch)) return 0; return (u32)srng->below(l.size());
  case 1: {
    while (pct_i < pct_points.size() && pct_points[pct_i] <= steps) { pct_i++; cur->prio = pct_low--; }
    u32 b = 0; for (u32 i = 1; i < l.size(); i++) if (l[i]->prio > l[b]->prio) b = i; return b; }
  default: return (l.size() > 1 && srng->p(p_switch)) ? 1 : 0;
  }
}
static std::vector<Fiber *> rl;
static void runnable_list(bool cur_first) {
  rl.clear();
  if (cur_first && cur->st == F_RUN) rl.push_back(cur);
  size_t n = fibers.size();
  // start after the current fiber so that default choices rotate
  size_t base = cur && cur != &root ? (size_t)cur->id + 1 : 0;
  for (size_t k = 0; k < n; k++) { Fiber *f = fibers[(base + k) % n]; if (f->st == F_RUN && !(cur_first && f == cur)) rl.push_back(f); }
}
static void resched() {
  for (;;) {
    fire_timers();
    check_limits();
    if (!anyalive()) { root.st = F_RUN; switch_to(&root); return; }
    runnable_list(false);
    if (rl.empty()) {
      if (timers.empty()) { stuck("deadlock"); }
      i64 t = timers.begin()->first.first;
      if (t > now_ns) {
        i64 d = t - now_ns;
        for (auto n : nodes) if (n->alive && n->n_stalled == 0) n->idle_ns += d;
        now_ns = t;
      }
      continue;
    }
    u32 v = rl.size() == 1 ? 0 : choose_val(K_SCHED, (u32)rl.size(), strategy(rl, false));
    Fiber *f = rl[v];
    if (f == cur) return;
    switch_to(f);
    return;
  }
}
void block(const char *why) {
  cur->why = why; cur->st = F_BLOCK; cur->wake_gen++;
  resched();
}
void wake(Fiber *f, int reason) {
  if (f->st != F_BLOCK) return;
  f->st = F_RUN; f->wake_reason = reason; f->blocked_until = FOREVER_T;
}
int block_until(i64 t, const char *why) {
  Fiber *f = cur; u64 gen = f->wake_gen + 1;
  u64 id = timer_at(t, [f, gen] { if (f->wake_gen == gen) wake(f, 1); });
  f->blocked_until = t;
  block(why);
  timer_cancel(id);
  return f->wake_reason;
}
void sim_sleep(i64 ns, bool busy, const char *why) {
  if (ns <= 0) return;
  Fiber *f = cur; Node *n = f->node;
  if (busy && n) { n->n_stalled++; f->stalled = true; }
  i64 t = now_ns + ns;
  while (now_ns < t) block_until(t, why);
  if (busy && n) { n->n_stalled--; f->stalled = false; }
}
void (*hook_yield)() = nullptr;
static bool in_yield = false;
static void yield_impl(bool forced) {
  if (!cur || cur == &root || !in_sim) return;
  steps++;
  if ((steps & 1023) == 0) check_limits();
  fire_timers();
  if (!in_yield && cur->node && !cur->stalled) {
    if (p_stall > 0 || S.listed) {
      u32 v = choose(K_STALL, 400, p_stall);
      if (v) { probe(PR_STALL); LOGV("stall %lu us", v * stall_unit / 1000); sim_sleep((i64)(v * stall_unit), true, "stalled"); }
    }
    if (hook_yield) { in_yield = true; hook_yield(); in_yield = false; }
  }
  runnable_list(!forced);
  if (forced) { // current last
    for (size_t i = 0; i + 1 < rl.size(); i++) if (rl[i] == cur) { rl.erase(rl.begin() + i); rl.push_back(cur); break; }
  }
  if (rl.size() <= 1) { if (rl.size() == 1 && rl[0] != cur) switch_to(rl[0]); return; }
  u32 v = choose_val(K_SCHED, (u32)rl.size(), strategy(rl, !forced));
  if (rl[v] != cur) switch_to(rl[v]);
}
void yield_point() { yield_impl(false); }

// ---------------------------------------------------------------- memory-access preemption
static const i64 SPIN_LIMIT = 20000;
static i64 next_forced = 0; // access count of next forced yield
static u64 next_pre = 0;    // access count of next preemption (0: none)
static void reset_countdown() {
  // requires acc_done to be current
  u64 t = next_forced;
  if (next_pre && next_pre < t) t = next_pre;
  cd_start = (i64)(t - acc_done); if (cd_start < 1) cd_start = 1;
  preempt_countdown = cd_start;
}
static void draw_pre() {
  next_pre = 0;
  if (S.listed) { while (preempt_i < preempts.size() && preempts[preempt_i] <= acc_done) preempt_i++; if (preempt_i < preempts.size()) next_pre = preempts[preempt_i]; }
  else if (p_mem > 0) {
    double u = krng[K_PREEMPT]->u(); if (u < 1e-12) u = 1e-12;
    u64 gap = 1 + (u64)(log(u) / log(1 - p_mem)); next_pre = acc_done + gap;
  }
}
extern "C" void preempt_slow() {
  acc_done += (u64)cd_start; cd_start = 0; preempt_countdown = 0;
  bool forced = (i64)acc_done >= next_forced, pre = next_pre && acc_done >= next_pre;
  if (forced) { next_forced = (i64)acc_done + SPIN_LIMIT; cost(20 * US); }
  if (pre) { R->asked[K_PREEMPT]++; R->fired[K_PREEMPT]++; record(K_PREEMPT, (u32)next_pre, 1); draw_pre(); }
  reset_countdown();
  if (!in_sim || !cur || cur == &root) return;
  cost(20);
  if (pre && strat == 1 && !S.listed) { if (krng[K_MISC]->p(0.3)) cur->prio = pct_low--; }
  yield_impl(forced && !pre);
  check_limits();
}

// ---------------------------------------------------------------- clocks
static const i64 EPOCH = 1700000000LL * SEC_;
i64 node_clock(Node *n) {
  i64 d = n->drift != 0 ? (i64)((double)(now_ns - n->drift_base) * n->drift) : 0;
  return EPOCH + now_ns + n->clock_off + d;
}
i64 node_clock_to_sim(Node *n, i64 t) {
  i64 x = t - EPOCH - n->clock_off;
  if (n->drift != 0) x = n->drift_base + (i64)((double)(x - n->drift_base) / (1 + n->drift));
  return x;
}
struct ClkWait { Fiber *f; i64 t; u64 tid; };
std::vector<ClkWait *> clkwaits;
void node_clock_jump(Node *n, i64 delta) {
  probe(PR_CLKJUMP);
  n->max_clock = std::max(n->max_clock, node_clock(n));
  n->clock_off += delta;
  for (auto w : clkwaits) if (w->f->node == n) {
    timer_cancel(w->tid); Fiber *f = w->f; u64 gen = f->wake_gen; i64 ts = node_clock_to_sim(n, w->t);
    w->tid = timer_at(ts < now_ns ? now_ns : ts, [f, gen] { if (f->wake_gen == gen) wake(f, 1); });
  }
}
// Wait until the node's clock shows t (affected by clock jumps).
int block_until_clock(i64 t, const char *why) {
  Node *n = cur->node; ClkWait w{cur, t, 0}; Fiber *f = cur; u64 gen = f->wake_gen + 1; i64 ts = node_clock_to_sim(n, t);
  if (n->drift != 0) ts += 1;
  w.tid = timer_at(ts < now_ns ? now_ns : ts, [f, gen] { if (f->wake_gen == gen) wake(f, 1); });
  clkwaits.push_back(&w);
  block(why);
  timer_cancel(w.tid);
  clkwaits.erase(std::find(clkwaits.begin(), clkwaits.end(), &w));
  return f->wake_reason;
}

// ---------------------------------------------------------------- nodes
void (*hook_node_exit)(Node *) = nullptr;
Node *node_new(const std::string &name, const std::string &image) {
  Node *n = new Node; n->id = (int)nodes.size(); n->name = name; n->image = image;
  nodes.push_back(n); return n;
}
static void node_end(Node *n) {
  n->alive = false; n->exited = true; n->exit_time = now_ns;
  for (auto f : fibers) if (f->node == n && f->st != F_DONE) { f->st = F_DONE; f->wake_gen++; }
  n->n_stalled = 0;
  if (hook_node_exit) hook_node_exit(n);
  hash_mix(0xe817 + n->id * 7 + n->status);
}
void node_do_exit(int status) {
  Node *n = cur->node;
  if (n->exiting) { // exit called again while exiting: the first call goes on in the real world only if same thread
    n->status = status;
  }
  if (!n->exiting) {
    n->exiting = true; n->status = status;
    while (!n->atexits.empty()) { auto f = n->atexits.back(); n->atexits.pop_back(); f(); }
  } else if (n->atexits.size()) {
    while (!n->atexits.empty()) { auto f = n->atexits.back(); n->atexits.pop_back(); f(); }
  }
  LOGV("node %s exits with status %d", n->name.c_str(), n->status);
  node_end(n);
  cur->st = F_DONE;
  resched();
  abort();
}
void node_kill(Node *n) {
  if (!n->alive) return;
  LOGV("node %s killed", n->name.c_str());
  probe(PR_KILLED);
  n->killed = true; n->status = 137; node_end(n);
}
void node_start(Node *n) {
  if (!n->handle) fail("sim-error", "image of %s not loaded", n->name.c_str());
  n->alive = true;
  int (*m)(int, char **) = (int (*)(int, char **))dlsym(n->handle, "node_main");
  if (!m) fail("sim-error", "no node_main in %s", n->image.c_str());
  Fiber *f = fiber_native(n, n->name, [n, m] {
    std::vector<char *> av; static std::vector<std::string> *keep = new std::vector<std::string>; (void)keep;
    auto *args = new std::vector<std::string>(n->args);
    for (auto &a : *args) av.push_back((char *)a.c_str());
    auto *avp = new std::vector<char *>(av); avp->push_back(nullptr);
    int r = m((int)av.size(), avp->data());
    node_do_exit(r);
  });
  n->main = f;
}
static void on_signal(int sig, siginfo_t *si, void *uc_) {
  ucontext_t *uc = (ucontext_t *)uc_;
  void *pc = (void *)uc->uc_mcontext.gregs[REG_RIP];
  Dl_info di; char where[200] = "?";
  if (dladdr(pc, &di)) snprintf(where, sizeof where, "%s+0x%lx (%s)", di.dli_sname ? di.dli_sname : "?", (u64)pc - (u64)di.dli_fbase, di.dli_fname ? strrchr(di.dli_fname, '/') ? strrchr(di.dli_fname, '/') + 1 : di.dli_fname : "?");
  if (!cur || cur == &root || !in_sim) { fprintf(stderr, "signal %d in the simulator at %s\n", sig, where); _exit(4); }
  fail("crash", "signal %d (%s) address %s in node %s", sig, where, (u64)si->si_addr < 4096 ? "null page" : "wild", cur->node ? cur->node->name.c_str() : "?");
}
void kernel_init() {
  static bool mapped = false;
  if (!mapped) {
    mapped = true;
    void *p = mmap(stack_base, STACK * MAXF, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)stack_base) { perror("mmap stacks"); exit(2); }
    for (int i = 0; i < MAXF; i++) mprotect(stack_base + (size_t)i * STACK, 4096, PROT_NONE);
    static char alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    struct sigaction sa = {}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  }
}
void kernel_start() {
  for (int k = 0; k < K_COUNT; k++) krng[k] = new Rng(mix2(S.seed, 0x1000 + k));
  srng = new Rng(mix2(S.seed, 0x5c4ed));
  for (auto &o : S.over) { if (o.kind == K_PREEMPT) preempts.push_back(o.idx); else omap[(u64)o.kind << 32 | o.idx] = o.val; }
  std::sort(preempts.begin(), preempts.end());
  strat = (int)C.get("strat"); p_switch = C.get("p_switch_ppm") * 1e-6; p_stall = C.get("p_stall_ppm") * 1e-6; p_mem = C.get("p_mem_ppm") * 1e-6;
  stall_unit = (u64)C.get("stall_unit_ns", 50 * US);
  if (strat == 1) { int k = (int)C.get("pct_k", 3); u64 len = (u64)C.get("pct_len", 3000); for (int i = 0; i < k; i++) pct_points.push_back(srng->below(len)); std::sort(pct_points.begin(), pct_points.end()); }
  root.st = F_BLOCK; cur = &root;
  next_forced = SPIN_LIMIT; acc_done = 0; draw_pre(); reset_countdown();
}
void run_all(i64 limit) {
  limit_sim_ns = limit;
  in_sim = true;
  cur = &root; root.st = F_BLOCK;
  if (anyalive()) resched();
  in_sim = false;
}
