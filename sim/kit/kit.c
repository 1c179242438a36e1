#include "kit.h"
#include <pthread.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
sp_reactor k_reactors[64]; sp_port k_ports[64]; sp_chan k_chans[256]; sp_timer k_timers[32]; sp_action k_actions[32]; sp_reaction k_reactions[128];
sp_watchdog k_watchdogs[8]; sp_mode k_modes[16]; sp_net k_nets[8]; int k_n_nets; int k_node;
static int nr, np, nc, nt, na, nx, nw, nm; static sp_prog P;
static sp_ref trigs[128][16]; static int srcs[128][16], outs[128][16], dsts[256][16];
static int n_args; static const char* args[16];
rec_t recs[100000]; int n_recs; static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static __thread int open_rec = -1; static int failed;
int k_reactor(int64_t init) { sp_reactor* r = &k_reactors[nr]; memset(r, 0, sizeof *r); r->parent_mode = -1; r->initial_mode = -1; r->init_state = init; return nr++; }
int k_port(int reactor, int output, int width, int ptype) {
  sp_port* p = &k_ports[np]; memset(p, 0, sizeof *p); p->reactor = reactor; p->is_output = output; p->width = width; p->ptype = ptype; p->first_chan = nc;
  for (int i = 0; i < width; i++) { k_chans[nc].port = np; k_chans[nc].idx = i; k_chans[nc].src = -1; k_chans[nc].dst = dsts[nc]; nc++; }
  return np++;
}
int k_chan(int port) { return k_ports[port].first_chan; }
int k_timer(int r, int64_t o, int64_t p) { k_timers[nt] = (sp_timer){r, o, p, -1}; return nt++; }
int k_action(int r, int ph, int pt, int64_t d) { sp_action a = {0}; a.reactor = r; a.physical = ph; a.ptype = pt; a.mode = -1; a.min_delay = d; a.min_spacing = -1; a.net_in = -1; k_actions[na] = a; return na++; }
int k_reaction(int r) { sp_reaction x = {0}; x.reactor = r; x.mode = -1; x.deadline = -1; x.inferred_deadline = INT64_MAX; x.last_enabling = -1; x.net_id = -1; if (k_reactors[r].n_reactions == 0) k_reactors[r].first_reaction = nx; x.number = k_reactors[r].n_reactions++; k_reactions[nx] = x; return nx++; }
int k_watchdog(int r, int64_t m) { k_watchdogs[nw] = (sp_watchdog){r, m, -1}; k_reactors[r].n_watchdogs++; return nw++; }
int k_mode(int r) { sp_reactor* R = &k_reactors[r]; if (!R->n_modes) { R->first_mode = nm; R->initial_mode = nm; } k_modes[nm] = (sp_mode){r, R->n_modes++}; return nm++; }
void k_trig(int x, int kind, int id) { trigs[x][k_reactions[x].n_trig++] = (sp_ref){kind, id}; }
void k_src(int x, int p) { srcs[x][k_reactions[x].n_src++] = p; }
void k_out(int x, int p) { outs[x][k_reactions[x].n_out++] = p; }
void k_connect(int o, int i) { k_chans[i].src = o; dsts[o][k_chans[o].n_dst++] = i; }
void k_arg(const char* a) { args[n_args++] = a; }
static int reads(int x, int port) { for (int i = 0; i < k_reactions[x].n_trig; i++) if (trigs[x][i].kind == TK_INPUT && trigs[x][i].id == port) return 1; for (int i = 0; i < k_reactions[x].n_src; i++) if (srcs[x][i] == port) return 1; return 0; }
static int edge(int a, int b) {
  if (k_reactions[a].reactor == k_reactions[b].reactor) return k_reactions[b].number == k_reactions[a].number + 1;
  for (int i = 0; i < k_reactions[a].n_out; i++) for (int w = 0; w < k_ports[outs[a][i]].width; w++) { sp_chan* c = &k_chans[k_ports[outs[a][i]].first_chan + w]; for (int d = 0; d < c->n_dst; d++) if (reads(b, k_chans[c->dst[d]].port)) return 1; }
  return 0;
}
static void finish(void) {
  for (int i = 0; i < nx; i++) { k_reactions[i].trig = trigs[i]; k_reactions[i].src = srcs[i]; k_reactions[i].out = outs[i]; if (k_reactions[i].deadline >= 0) k_reactions[i].inferred_deadline = k_reactions[i].deadline; }
  for (int r = 0; r < nx; r++) for (int a = 0; a < nx; a++) for (int b = 0; b < nx; b++) if (edge(a, b)) {
    if (k_reactions[b].level <= k_reactions[a].level) k_reactions[b].level = k_reactions[a].level + 1;
    if (k_reactions[a].inferred_deadline > k_reactions[b].inferred_deadline) k_reactions[a].inferred_deadline = k_reactions[b].inferred_deadline;
  }
  P.n_levels = 1;
  for (int i = 0; i < nx; i++) if (k_reactions[i].level + 1 > P.n_levels) P.n_levels = k_reactions[i].level + 1;
  P.n_reactors = nr; P.reactors = k_reactors; P.n_ports = np; P.ports = k_ports; P.n_chans = nc; P.chans = k_chans; P.n_timers = nt; P.timers = k_timers; P.n_actions = na; P.actions = k_actions;
  P.n_watchdogs = nw; P.watchdogs = k_watchdogs; P.n_modes = nm; P.modes = k_modes; P.n_reactions = nx; P.reactions = k_reactions; P.n_nets = k_n_nets; P.nets = k_nets;
}
int64_t k_now(void) { struct timespec t; clock_gettime(CLOCK_REALTIME, &t); return (int64_t)t.tv_sec * 1000000000 + t.tv_nsec; }
void bad(const char* fmt, ...) { va_list ap; va_start(ap, fmt); fprintf(stderr, "DEMO FAILS: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap); failed = 1; }
sp_op op(int kind, int a, int b, int64_t x, uint64_t v) { sp_op o; o.op = kind; o.a = a; o.b = b; o.x = x; o.v = v; return o; }
int ran(int r, int kind) { int n = 0; for (int i = 0; i < n_recs; i++) n += recs[i].reaction == r && recs[i].kind == kind; return n; }
rec_t* find(int r, int64_t t, uint32_t m) { for (int i = 0; i < n_recs; i++) if (recs[i].kind != WATCHDOG_HANDLER && recs[i].reaction == r && recs[i].t == t && recs[i].m == m) return &recs[i]; return NULL; }
const sp_prog* sim_prog(void) { return &P; }
int sim_node(void) { return k_node; }
const char* sim_cfg_str(const char* k) { const char* e = getenv(k); return e ? e : ""; }
int64_t sim_cfg_int(const char* k) { const char* e = getenv(k); return e ? atoll(e) : 0; }
void sim_body_begin(sp_call* c) {
  pthread_mutex_lock(&mu);
  if (n_recs >= 99999) { bad("too many reactions"); _exit(1); }
  open_rec = n_recs++; rec_t* r = &recs[open_rec]; r->reaction = c->reaction; r->kind = c->kind; r->node = c->node; r->t = c->tag_time - c->start_time; r->m = c->tag_ms; r->b = k_now(); r->e = 0;
  pthread_mutex_unlock(&mu);
}
int sim_body(sp_call* c, sp_op* ops, int max, uint64_t* ns) {
  (void)max; rec_t* r = &recs[open_rec]; r->state = c->state; r->n_in = c->n_in < 24 ? c->n_in : 24; memcpy(r->in, c->in, sizeof(sp_in) * r->n_in); *ns = c->state + 1;
  return body(c, ops);
}
int sim_exit_now(int node) { (void)node; return 0; }
void sim_body_end(sp_call* c) { (void)c; recs[open_rec].e = k_now(); }
void sim_burn(int64_t ns) { struct timespec t = {ns / 1000000000, ns % 1000000000}; nanosleep(&t, NULL); }
void sim_note(int code, int64_t a, int64_t b, int64_t c) { (void)code; (void)a; (void)b; (void)c; }
void sim_fail(const char* cls, const char* msg) { bad("%s: %s", cls, msg); }
void sim_sched_call(int a, uint64_t p, int64_t e, int after) { (void)a; (void)p; (void)e; (void)after; }
int sim_async_next(int thread, int64_t* wait, int* o, int* action, int64_t* extra, uint64_t* v, int64_t* len) { return async_next(thread, wait, o, action, extra, v, len); }
__attribute__((weak)) int async_next(int thread, int64_t* wait, int* o, int* action, int64_t* extra, uint64_t* v, int64_t* len) { (void)thread; (void)wait; (void)o; (void)action; (void)extra; (void)v; (void)len; return 0; }
int node_main(int argc, char** argv);
static void at_end(void) { if (!failed) verify(); fflush(stdout); fflush(stderr); _exit(failed ? 1 : 0); }
static void on_alarm(int s) { (void)s; static const char m[] = "DEMO FAILS: the program does not end\n"; if (write(2, m, sizeof m - 1)) {} _exit(1); }
int main(int argc, char** argv) {
  (void)argc;
  signal(SIGALRM, on_alarm); alarm(getenv("KIT_ALARM") ? atoi(getenv("KIT_ALARM")) : 60); atexit(at_end);
  k_node = getenv("KIT_NODE") ? atoi(getenv("KIT_NODE")) : 0;
  program(); finish();
  char* av[20]; int n = 0; av[n++] = argv[0]; for (int i = 0; i < n_args; i++) av[n++] = (char*)args[i]; av[n] = NULL;
  return node_main(n, av);
}
