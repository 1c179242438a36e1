// Threads, mutexes, condition variables, time and process services seen by the nodes.
#include "sim.h"
#include <pthread.h>
#include <cerrno>
#include <cstdarg>
#include <ctime>
#include <csignal>
#include <sched.h>
#include <unistd.h>
#define X __attribute__((visibility("default"), used))

struct Mtx { void *addr; int type; Fiber *owner = nullptr; int count = 0; std::deque<Fiber *> waiters; Node *node; };
struct CWait { Fiber *f; bool signaled; };
struct Cnd { void *addr; std::vector<CWait *> w; Node *node; };
static std::vector<Mtx *> mtxs; static std::vector<Cnd *> cnds;
static const u32 MM = 0x4d757478, CM = 0x436f6e64;
struct Tag { u32 magic, id; };
int block_until_clock(i64 t, const char *why);
static double p_spur, p_over, p_eintr; static i64 c_sync = 60;
void sync_start() { p_spur = C.get("p_spur_ppm") * 1e-6; p_over = C.get("p_over_ppm") * 1e-6; p_eintr = C.get("p_eintr_ppm") * 1e-6; c_sync = C.get("c_sync_ns", 60); }

static Mtx *mtx(void *p, const char *what) {
  heap_check(p, sizeof(pthread_mutex_t), 1, what);
  Tag *t = (Tag *)p;
  if (t->magic == MM && t->id < mtxs.size()) {
    if (mtxs[t->id]->node != cur->node) fail("sync", "%s on a mutex of another node", what);
    return mtxs[t->id];
  }
  static const char z[sizeof(pthread_mutex_t)] = {};
  if (memcmp(p, z, sizeof z) == 0) { Mtx *m = new Mtx; m->addr = p; m->type = PTHREAD_MUTEX_NORMAL; m->node = cur->node; t->magic = MM; t->id = (u32)mtxs.size(); mtxs.push_back(m); return m; }
  fail("sync", "%s on a mutex that was never initialised (or was overwritten)", what);
}
static Cnd *cnd(void *p, const char *what) {
  heap_check(p, sizeof(pthread_cond_t), 1, what);
  Tag *t = (Tag *)p;
  if (t->magic == CM && t->id < cnds.size()) return cnds[t->id];
  static const char z[sizeof(pthread_cond_t)] = {};
  if (memcmp(p, z, sizeof z) == 0) { Cnd *m = new Cnd; m->addr = p; m->node = cur->node; t->magic = CM; t->id = (u32)cnds.size(); cnds.push_back(m); return m; }
  fail("sync", "%s on a condition variable that was never initialised (or was overwritten)", what);
}
static int mlock(Mtx *m) {
  if (m->owner == cur) {
    if (m->type == PTHREAD_MUTEX_RECURSIVE) { m->count++; return 0; }
    if (m->type == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
  }
  if (m->owner) probe(PR_CONTENDED);
  while (m->owner) { m->waiters.push_back(cur); block("mutex"); auto i = std::find(m->waiters.begin(), m->waiters.end(), cur); if (i != m->waiters.end()) m->waiters.erase(i); }
  m->owner = cur; m->count = 1; return 0;
}
static int munlock(Mtx *m) {
  if (m->owner != cur) return EPERM;
  if (--m->count > 0) return 0;
  m->owner = nullptr;
  auto w = m->waiters; m->waiters.clear();
  for (auto f : w) wake(f);
  return 0;
}
bool fiber_holds_any(Fiber *f) { for (auto m : mtxs) if (m->owner == f) return true; return false; }

static void print_out(const char *s) {
  Node *n = cur ? cur->node : nullptr; if (!n) return;
  if (n->log.size() < (1u << 20)) n->log += s;
  LOGV("out| %s", std::string(s, strcspn(s, "\n")).c_str());
}
bool sim_is_file(FILE *f); int sim_vfprintf(FILE *f, const char *fmt, va_list ap);
static int vprint(FILE *f, const char *fmt, va_list ap) {
  if (f && f != stdout && f != stderr && sim_is_file(f)) return sim_vfprintf(f, fmt, ap);
  static char b[8192]; int r = vsnprintf(b, sizeof b, fmt, ap); print_out(b); return r;
}
static i64 rel_ns(const struct timespec *t) { return (i64)t->tv_sec * SEC_ + t->tv_nsec; }
void (*hook_clock_read)(Node *, Fiber *, i64) = nullptr;

extern "C" {
X int __wrap_pthread_mutexattr_init(pthread_mutexattr_t *a) { memset(a, 0, sizeof *a); return 0; }
X int __wrap_pthread_mutexattr_settype(pthread_mutexattr_t *a, int t) { *(int *)a = t; return 0; }
X int __wrap_pthread_mutexattr_destroy(pthread_mutexattr_t *) { return 0; }
X int __wrap_pthread_mutex_init(pthread_mutex_t *p, const pthread_mutexattr_t *a) {
  heap_check(p, sizeof *p, 1, "pthread_mutex_init");
  Mtx *m = new Mtx; m->addr = p; m->type = a ? *(const int *)a : 0; m->node = cur->node;
  memset(p, 0, sizeof *p); Tag *t = (Tag *)p; t->magic = MM; t->id = (u32)mtxs.size(); mtxs.push_back(m); return 0;
}
X int __wrap_pthread_mutex_destroy(pthread_mutex_t *p) { Mtx *m = mtx(p, "pthread_mutex_destroy"); if (m->owner) return EBUSY; memset(p, 0xdd, sizeof *p); return 0; }
X int __wrap_pthread_mutex_lock(pthread_mutex_t *p) { cost(c_sync); yield_point(); Mtx *m = mtx(p, "pthread_mutex_lock"); return mlock(m); }
X int __wrap_pthread_mutex_trylock(pthread_mutex_t *p) { cost(c_sync); yield_point(); Mtx *m = mtx(p, "pthread_mutex_trylock"); if (m->owner && m->owner != cur) return EBUSY; return mlock(m); }
X int __wrap_pthread_mutex_unlock(pthread_mutex_t *p) { cost(c_sync); Mtx *m = mtx(p, "pthread_mutex_unlock"); int r = munlock(m); yield_point(); return r; }
X int __wrap_pthread_condattr_init(pthread_condattr_t *a) { memset(a, 0, sizeof *a); return 0; }
X int __wrap_pthread_condattr_setpshared(pthread_condattr_t *, int) { return 0; }
X int __wrap_pthread_condattr_setclock(pthread_condattr_t *, int) { return 0; }
X int __wrap_pthread_condattr_destroy(pthread_condattr_t *) { return 0; }
X int __wrap_pthread_cond_init(pthread_cond_t *p, const pthread_condattr_t *) {
  heap_check(p, sizeof *p, 1, "pthread_cond_init");
  Cnd *m = new Cnd; m->addr = p; m->node = cur->node; memset(p, 0, sizeof *p); Tag *t = (Tag *)p; t->magic = CM; t->id = (u32)cnds.size(); cnds.push_back(m); return 0;
}
X int __wrap_pthread_cond_destroy(pthread_cond_t *p) { memset(p, 0xdd, sizeof *p); return 0; }
static int cwait(pthread_cond_t *p, pthread_mutex_t *mp, const struct timespec *ts) {
  cost(c_sync); yield_point();
  Cnd *c = cnd(p, "pthread_cond_wait"); Mtx *m = mtx(mp, "pthread_cond_wait");
  if (m->owner != cur) { if (m->type == PTHREAD_MUTEX_RECURSIVE) return EPERM; fail("sync", "condition wait without holding the mutex"); }
  i64 dl = ts ? rel_ns(ts) : FOREVER_T;
  if (ts && (ts->tv_nsec < 0 || ts->tv_nsec >= SEC_)) return EINVAL;
  CWait w{cur, false}; c->w.push_back(&w);
  munlock(m);
  u32 sp = choose(K_SPURIOUS, 1000, p_spur); u64 sid = 0; Fiber *f = cur;
  if (sp) { u64 gen = f->wake_gen + 1; probe(PR_SPURIOUS); sid = timer_at(now_ns + (i64)sp * 3 * US, [f, gen] { if (f->wake_gen == gen) wake(f, 2); }); }
  int r = 0;
  if (ts) {
    if (node_clock(cur->node) >= dl) { yield_point(); if (!w.signaled) r = 1; }
    else r = block_until_clock(dl, "timed condition");
  } else { block("condition"); r = cur->wake_reason; }
  if (sid) timer_cancel(sid);
  auto i = std::find(c->w.begin(), c->w.end(), &w); if (i != c->w.end()) c->w.erase(i);
  if (r == 1 && w.signaled) r = 0;
  if (r == 1) { probe(PR_TIMEDOUT_WAIT); u32 o = choose(K_OVERSLEEP, 200, p_over); if (o) sim_sleep((i64)o * 5 * US, true, "oversleep"); }
  mlock(m);
  return r == 1 ? ETIMEDOUT : 0;
}
X int __wrap_pthread_cond_wait(pthread_cond_t *p, pthread_mutex_t *m) { return cwait(p, m, nullptr); }
X int __wrap_pthread_cond_timedwait(pthread_cond_t *p, pthread_mutex_t *m, const struct timespec *ts) { return cwait(p, m, ts); }
X int __wrap_pthread_cond_signal(pthread_cond_t *p) {
  cost(c_sync); Cnd *c = cnd(p, "pthread_cond_signal");
  std::vector<CWait *> u; for (auto w : c->w) if (!w->signaled && w->f->st == F_BLOCK) u.push_back(w);
  if (!u.empty()) { u32 v = u.size() > 1 ? choose(K_SIGNAL, (u32)u.size(), 0.5) : 0; u[v]->signaled = true; wake(u[v]->f, 0); }
  yield_point(); return 0;
}
X int __wrap_pthread_cond_broadcast(pthread_cond_t *p) {
  cost(c_sync); Cnd *c = cnd(p, "pthread_cond_broadcast");
  for (auto w : c->w) { w->signaled = true; wake(w->f, 0); }
  yield_point(); return 0;
}
static const u64 THB = 0x7100000000ULL;
X int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  cost(10 * c_sync); yield_point();
  heap_check(t, sizeof *t, 1, "pthread_create");
  Fiber *f = fiber_thread(cur->node, fn, arg);
  *t = THB + f->id; yield_point(); return 0;
}
X pthread_t __wrap_pthread_self(void) { return THB + cur->id; }
X int __wrap_pthread_detach(pthread_t t) { u64 i = t - THB; if (i < fibers.size()) fibers[i]->detached = true; return 0; }
X int __wrap_pthread_join(pthread_t t, void **ret) {
  cost(c_sync); yield_point();
  u64 i = t - THB; if (i >= fibers.size() || fibers[i]->node != cur->node) fail("sync", "pthread_join on an invalid thread handle");
  Fiber *f = fibers[i];
  if (f == cur) return EDEADLK;
  if (f->joined) fail("sync", "thread joined twice");
  f->joined = true;
  while (f->st != F_DONE) { f->joiners.push_back(cur); block("join"); }
  if (ret) *ret = f->ret;
  return 0;
}
X int __wrap_pthread_getschedparam(pthread_t, int *pol, struct sched_param *p) { *pol = SCHED_OTHER; p->sched_priority = 0; return 0; }
X int __wrap_pthread_setschedparam(pthread_t, int, const struct sched_param *) { return 0; }
X int __wrap_pthread_setschedprio(pthread_t, int) { return 0; }
X int __wrap_pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }
X long __wrap_sysconf(int n) { return n == _SC_NPROCESSORS_ONLN ? cur->node->icfg.count("cores") ? cur->node->icfg["cores"] : 4 : sysconf(n); }
X int __wrap_sched_yield(void) { yield_point(); return 0; }

X int __wrap_clock_gettime(clockid_t, struct timespec *ts) {
  cost(30); yield_point();
  i64 t = node_clock(cur->node); ts->tv_sec = t / SEC_; ts->tv_nsec = t % SEC_;
  cur->last_clock = t; cur->last_clock_seq = ++gseq;
  if (hook_clock_read) hook_clock_read(cur->node, cur, t);
  return 0;
}
X int __wrap_clock_getres(clockid_t, struct timespec *ts) { ts->tv_sec = 0; ts->tv_nsec = 1; return 0; }
X time_t __wrap_time(time_t *t) { time_t v = node_clock(cur->node) / SEC_; if (t) *t = v; return v; }
X int __wrap_nanosleep(const struct timespec *rq, struct timespec *rm) {
  cost(30); yield_point();
  if (rq->tv_nsec < 0 || rq->tv_nsec >= SEC_ || rq->tv_sec < 0) { errno = EINVAL; return -1; }
  i64 ns = rel_ns(rq); u32 e = choose(K_EINTR_SLEEP, 100, p_eintr);
  if (e && ns > 100) {
    i64 part = ns / 100 * e; probe(PR_EINTR); sim_sleep(part, false, "nanosleep");
    if (rm) { rm->tv_sec = (ns - part) / SEC_; rm->tv_nsec = (ns - part) % SEC_; }
    errno = EINTR; return -1;
  }
  if (ns > 0) sim_sleep(ns, false, "nanosleep"); else yield_point();
  u32 o = choose(K_OVERSLEEP, 200, p_over); if (o) sim_sleep((i64)o * 5 * US, true, "oversleep");
  return 0;
}
X int __wrap_usleep(unsigned us) { struct timespec t = {us / 1000000, (long)(us % 1000000) * 1000}; return __wrap_nanosleep(&t, nullptr); }
X unsigned __wrap_sleep(unsigned s) { struct timespec t = {(time_t)s, 0}; __wrap_nanosleep(&t, nullptr); return 0; }
X int __wrap_atexit(void (*f)(void)) { cur->node->atexits.push_back(f); return 0; }
X void __wrap_exit(int st) { LOGV("exit(%d)", st); hash_mix(0xe81); node_do_exit(st); abort(); }
X void __wrap__exit(int st) { cur->node->atexits.clear(); node_do_exit(st); abort(); }
X void __wrap_abort(void) { fail("abort", "abort() called in node %s", cur->node->name.c_str()); }
X void __wrap___assert_fail(const char *e, const char *file, unsigned line, const char *fn) {
  const char *b = strrchr(file, '/'); fail("assert", "assertion '%s' failed at %s:%u (%s) in node %s", e, b ? b + 1 : file, line, fn, cur->node->name.c_str());
}
X void __wrap___stack_chk_fail(void) { fail("memory", "stack smashing detected"); }
X sighandler_t __wrap_signal(int sig, sighandler_t h) { if (sig == SIGPIPE && h == SIG_IGN) cur->node->sigpipe_ign = true; return SIG_DFL; }
X int __wrap_raise(int sig) { fail("abort", "raise(%d)", sig); }

X int __wrap_printf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vprint(stdout, fmt, ap); va_end(ap); return r; }
X int __wrap_fprintf(FILE *f, const char *fmt, ...) { va_list ap; va_start(ap, fmt); int r = vprint(f, fmt, ap); va_end(ap); return r; }
X int __wrap_vfprintf(FILE *f, const char *fmt, va_list ap) { return vprint(f, fmt, ap); }
X int __wrap_vprintf(const char *fmt, va_list ap) { return vprint(stdout, fmt, ap); }
X int __wrap_puts(const char *s) { print_out(s); print_out("\n"); return 1; }
X int __wrap_putchar(int c) { char b[2] = {(char)c, 0}; print_out(b); return c; }
X int __wrap_fputs(const char *s, FILE *) { print_out(s); return 1; }
X int __wrap_fputc(int c, FILE *) { char b[2] = {(char)c, 0}; print_out(b); return c; }
}
