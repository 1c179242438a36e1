/* What the LF compiler would generate, driven by the program description of the simulator. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include "reactor.h"
#include "reactor_common.h"
#include "environment.h"
#include "lf_types.h"
#include "lf_token.h"
#include "port.h"
#include "tag.h"
#include "clock.h"
#include "platform.h"
#include "util.h"
#include "vector.h"
#include "schedule.h"
#include "modal_models/modes.h"
#ifndef LF_SINGLE_THREADED
#include "threaded/scheduler.h"
#include "threaded/scheduler_instance.h"
#include "watchdog.h"
#endif
#ifdef LF_TRACE
#include "trace.h"
#endif
#ifdef FEDERATED
#include "federate.h"
#include "clock-sync.h"
#include "net_util.h"
#endif
#include "abi.h"

#define MAXR 24
#define NMAX 64

typedef struct {
  token_type_t type;
  lf_token_t* token;
  size_t length;
  bool is_present;
  lf_port_internal_t _base;
  int64_t value;
} port_v;
typedef struct {
  token_type_t type;
  lf_token_t* token;
  size_t length;
  bool is_present;
  lf_port_internal_t _base;
  int64_t* value;
} port_t_;
typedef struct {
  token_type_t type;
  lf_token_t* token;
  size_t length;
  bool is_present;
  lf_action_internal_t _base;
  self_base_t* parent;
  bool has_value;
  int source_id;
  int64_t* value;
} act_t;

typedef struct {
  self_base_t base;
  int64_t state;
  int64_t init;
  int id;
  const sp_reactor* sp;
  reaction_t r[MAXR];
#ifdef MODAL_REACTORS
  reactor_mode_t modes[4];
#endif
} self_t;

static const sp_prog* P;
static environment_t env_main;
static self_t** selfs;
static port_v** chan_v;           /* one per channel: output structs, or pointers for inputs */
static tag_t** chan_itag;
static trigger_t** port_trig;     /* per input port */
static trigger_t** act_trig;
static act_t** act_struct;
static trigger_t** timer_trig;
#ifndef LF_SINGLE_THREADED
static watchdog_t** wds;
#endif
static int node_id;

static inline bool mine(int reactor) { return P->reactors[reactor].node == node_id; }

/* ---------------------------------------------------------------- payload bookkeeping */
static uint64_t hash_arr(const int64_t* a, int64_t n) {
  uint64_t h = 1469598103934665603ULL ^ (uint64_t)n;
  for (int64_t i = 0; i < n; i++) {
    h = (h ^ (uint64_t)a[i]) * 1099511628211ULL;
    h ^= h >> 29;
  }
  return h;
}
static void fill_arr(int64_t* a, int64_t n, uint64_t v) {
  for (int64_t i = 0; i < n; i++) a[i] = (int64_t)(v + (uint64_t)i * 0x9E3779B97F4A7C15ULL);
}
static int64_t* new_arr(int64_t n, uint64_t v) {
  int64_t* a = (int64_t*)malloc(sizeof(int64_t) * (n ? n : 1));
  fill_arr(a, n, v);
  return a;
}

/* ---------------------------------------------------------------- asynchronous threads */
#ifndef LF_SINGLE_THREADED
typedef struct { int k; } async_arg;
static lf_thread_t async_thr[8];
static int async_n = 0;
static volatile bool async_quit = false;
extern int sim_async_next(int thread, int64_t* wait, int* op, int* action, int64_t* extra, uint64_t* v, int64_t* len);
static void do_sched(int action, int variant, int64_t extra, uint64_t v, int64_t len) {
  act_t* a = act_struct[action];
  sim_sched_call(action, v, extra, 0);
  switch (variant) {
  case 0:
    lf_schedule(a, extra);
    break;
  case 1: {
    int64_t x = (int64_t)v;
    lf_schedule_copy(a, extra, &x, 1);
    break;
  }
  case 2: {
    int64_t* arr = new_arr(len, v);
    lf_schedule_value(a, extra, arr, (int)len);
    break;
  }
  case 3: {
    int64_t* arr = new_arr(len, v);
    lf_schedule_copy(a, extra, arr, (size_t)len);
    free(arr);
    break;
  }
  default: {
    lf_token_t* t = lf_new_token(a, new_arr(len, v), (size_t)len);
    lf_schedule_token(a, extra, t);
  }
  }
  sim_sched_call(action, v, extra, 1);
}
#ifdef LF_TRACE
static void trace_async(int action, uint64_t v);
#else
#define trace_async(action, v) ((void)0)
#endif
static void* async_main(void* arg) {
  int k = (int)(intptr_t)arg;
  int64_t wait, extra, len;
  int op, action;
  uint64_t v;
  while (!async_quit && sim_async_next(k, &wait, &op, &action, &extra, &v, &len)) {
    lf_sleep(wait);
    if (async_quit) break;
    if (op == OP_STOP) {
      sim_note(NOTE_STOP_CALL, -1, 0, 0);
      lf_request_stop();
      sim_note(NOTE_STOP_RET, -1, 0, 0);
    } else {
      do_sched(action, op, extra, v, len);
    }
    trace_async(action, v);
  }
  return NULL;
}
static void spawn_async(int n) {
  async_n = n;
  for (int i = 0; i < n; i++) lf_thread_create(&async_thr[i], async_main, (void*)(intptr_t)i);
}
static void join_async(void) {
  async_quit = true;
  void* r;
  for (int i = 0; i < async_n; i++) lf_thread_join(async_thr[i], &r);
  async_n = 0;
}
#else
static void do_sched(int action, int variant, int64_t extra, uint64_t v, int64_t len) {
  act_t* a = act_struct[action];
  sim_sched_call(action, v, extra, 0);
  switch (variant) {
  case 0: lf_schedule(a, extra); break;
  case 1: { int64_t x = (int64_t)v; lf_schedule_copy(a, extra, &x, 1); break; }
  case 2: { int64_t* arr = new_arr(len, v); lf_schedule_value(a, extra, arr, (int)len); break; }
  case 3: { int64_t* arr = new_arr(len, v); lf_schedule_copy(a, extra, arr, (size_t)len); free(arr); break; }
  default: { lf_token_t* t = lf_new_token(a, new_arr(len, v), (size_t)len); lf_schedule_token(a, extra, t); }
  }
  sim_sched_call(action, v, extra, 1);
}
#endif

/* ---------------------------------------------------------------- reaction bodies */
#include "reaction_macros.h"
#ifdef FEDERATED
static void net_sender_body(self_t* self, const sp_reaction* R);
static void absent_sender_body(self_t* self, const sp_reaction* R);
static void net_receiver_body(self_t* self, const sp_reaction* R);
static void net_init_body(self_t* self, const sp_reaction* R);
#endif

#ifdef LF_TRACE
#include "tracepoint.h"
static char user_names[8][3] = {"u0", "u1", "u2", "u3", "u4", "u5", "u6", "u7"};
#endif
typedef struct { lf_token_t* tok; port_t_ copy; uint64_t h; int is_copy; } tok_in;

static void run_body(self_t* self, int k, int kind, int wd) {
  const sp_reactor* sp = self->sp;
  int rid = kind == WATCHDOG_HANDLER ? wd : sp->first_reaction + k;
#ifdef FEDERATED
  if (kind != WATCHDOG_HANDLER && P->reactions[rid].net_kind) {
    const sp_reaction* R = &P->reactions[rid];
    if (R->net_kind == 1) net_receiver_body(self, R);
    else if (R->net_kind == 2) net_sender_body(self, R);
    else if (R->net_kind == 4) net_init_body(self, R);
    else absent_sender_body(self, R);
    return;
  }
#endif
  sp_call c;
  sp_in in[NMAX];
  tok_in tk[NMAX];
  sp_op ops[NMAX];
  memset(&c, 0, sizeof c);
  c.node = node_id;
  c.reaction = rid;
  c.kind = kind;
  tag_t t = lf_tag();
  c.tag_time = t.time;
  c.tag_ms = t.microstep;
  c.start_time = lf_time_start();
  c.in = in;
  sim_body_begin(&c);
  int n = 0;
  if (kind != WATCHDOG_HANDLER) {
    const sp_reaction* R = &P->reactions[rid];
    for (int i = 0; i < R->n_trig + R->n_src; i++) {
      int is_trig = i < R->n_trig;
      int tkind = is_trig ? R->trig[i].kind : TK_INPUT;
      int id = is_trig ? R->trig[i].id : R->src[i - R->n_trig];
      if (tkind == TK_ACTION) {
        trigger_t* tr = act_trig[id];
        act_t* a = act_struct[id];
        sp_in* x = &in[n];
        memset(x, 0, sizeof *x);
        x->kind = TK_ACTION;
        x->id = id;
        a->is_present = (bool)tr->status;
        a->has_value = (tr->tmplt.token != NULL && tr->tmplt.token->value != NULL);
        _lf_replace_template_token((token_template_t*)a, tr->tmplt.token);
        x->present = a->is_present;
        tk[n].tok = NULL;
        if (a->has_value) {
          a->token = tr->tmplt.token;
          a->value = (int64_t*)a->token->value;
          a->length = a->token->length;
        }
        if (a->is_present && a->has_value) {
          x->has_value = 1;
          x->len = (int64_t)a->length;
          x->first = (uint64_t)a->value[0];
          x->val = hash_arr(a->value, x->len);
          tk[n].tok = a->token;
          tk[n].h = x->val;
          tk[n].is_copy = 0;
        }
#ifdef FEDERATED
        x->itag_time = tr->intended_tag.time;
        x->itag_ms = tr->intended_tag.microstep;
#endif
        n++;
      } else if (tkind == TK_INPUT) {
        const sp_port* p = &P->ports[id];
        port_v* arr[NMAX];
        int present_by_iter[NMAX];
        for (int w = 0; w < p->width; w++) {
          arr[w] = chan_v[p->first_chan + w];
          present_by_iter[w] = 0;
        }
        if (p->width > 1) {
          lf_multiport_iterator_t it = _lf_multiport_iterator_impl((lf_port_base_t**)arr, p->width);
          int ch = lf_multiport_next(&it), last = -1, guard = 0;
          while (ch >= 0) {
            if (ch >= p->width || ch <= last || guard++ > p->width) {
              sim_fail("sparse", "multiport iterator returned a wrong channel");
              break;
            }
            last = ch;
            present_by_iter[ch] = 1;
            ch = lf_multiport_next(&it);
          }
        }
        for (int w = 0; w < p->width; w++) {
          sp_in* x = &in[n];
          memset(x, 0, sizeof *x);
          x->kind = TK_INPUT;
          x->id = p->first_chan + w;
          tk[n].tok = NULL;
          port_v* src = arr[w];
          x->present = src->is_present;
          if (p->width > 1 && present_by_iter[w] != x->present)
            sim_fail("sparse", "multiport iterator disagrees with the channels that are present");
          if (src->is_present) {
            x->has_value = 1;
            if (p->ptype == PT_V) {
              x->len = 1;
              x->first = (uint64_t)src->value;
              x->val = hash_arr(&src->value, 1);
            } else {
              port_t_* s2 = (port_t_*)src;
              tk[n].is_copy = 0;
              if (p->mut) {
                memcpy(&tk[n].copy, s2, sizeof(port_t_));
                lf_token_t* wc = lf_writable_copy((lf_port_base_t*)s2);
                tk[n].copy.token = wc;
                tk[n].copy.value = (int64_t*)wc->value;
                tk[n].copy.length = wc->length;
                s2 = &tk[n].copy;
                tk[n].is_copy = 1;
              }
              x->len = (int64_t)s2->length;
              x->first = x->len ? (uint64_t)s2->value[0] : 0;
              x->val = hash_arr(s2->value, x->len);
              tk[n].tok = s2->token;
              tk[n].h = x->val;
              if (s2->token->length != s2->length) sim_fail("payload", "token length differs from port length");
            }
          }
          n++;
        }
      }
    }
  }
  c.n_in = n;
  c.state = (uint64_t)self->state;
  uint64_t ns = c.state;
  int no = sim_body(&c, ops, NMAX, &ns);
  for (int i = 0; i < no; i++) {
    sp_op* o = &ops[i];
    switch (o->op) {
    case OP_SET_V: {
      port_v* out = chan_v[o->a];
      lf_set(out, (int64_t)o->v);
      break;
    }
    case OP_SET_T_NEW: {
      port_t_* out = (port_t_*)chan_v[o->a];
      if (o->b == 0) {
        int64_t* arr = new_arr(o->x, o->v);
        lf_set_array(out, arr, (size_t)o->x);
      } else {
        lf_token_t* nt = lf_new_token(out, new_arr(o->x, o->v), (size_t)o->x);
        lf_set_token(out, nt);
      }
      break;
    }
    case OP_SET_T_FWD: {
      port_t_* out = (port_t_*)chan_v[o->a];
      lf_token_t* nt = tk[o->b].tok;
      if (nt == NULL) break;
      if (tk[o->b].is_copy && o->x) { /* modify the private copy first */
        int64_t* a = (int64_t*)nt->value;
        for (size_t q = 0; q < nt->length; q++) a[q] = (int64_t)((uint64_t)a[q] + o->v);
        tk[o->b].h = hash_arr(a, (int64_t)nt->length);
      }
      lf_set_token(out, nt);
      break;
    }
    case OP_SCHED_NONE: do_sched(o->a, 0, o->x, o->v, 0); break;
    case OP_SCHED_V: do_sched(o->a, 1, o->x, o->v, 1); break;
    case OP_SCHED_T_NEW: do_sched(o->a, 2 + (o->b % 3), o->x, o->v, 1 + (int64_t)(o->v % 7)); break;
    case OP_SCHED_T_FWD: {
      lf_token_t* nt = tk[o->b].tok;
      if (nt == NULL) break;
      sim_sched_call(o->a, o->v, o->x, 0);
      lf_schedule_token(act_struct[o->a], o->x, nt);
      sim_sched_call(o->a, o->v, o->x, 1);
      break;
    }
    case OP_STOP:
      sim_note(NOTE_STOP_CALL, rid, t.time, t.microstep);
      lf_request_stop();
      sim_note(NOTE_STOP_RET, rid, t.time, t.microstep);
      break;
#ifdef MODAL_REACTORS
    case OP_MODE: {
      reactor_mode_t* m = &self->modes[o->a - sp->first_mode];
      if (o->b) { _LF_SET_MODE_WITH_TYPE(m, history_transition); }
      else { _LF_SET_MODE_WITH_TYPE(m, reset_transition); }
      break;
    }
#endif
#ifndef LF_SINGLE_THREADED
    case OP_WD_START:
    {
      /* a handler runs concurrently with the advance of logical time */
      int64_t lo = lf_tag().time, d = wds[o->a]->min_expiration + o->x;
      lf_watchdog_start(wds[o->a], o->x);
      sim_note(NOTE_WD_START, o->a, lo + d, lf_tag().time + d);
      break;
    }
    case OP_WD_STOP:
      sim_note(NOTE_WD_STOP, o->a, 0, 0);
      lf_watchdog_stop(wds[o->a]);
      break;
    case OP_SPAWN: spawn_async(o->a); break;
    case OP_JOIN: join_async(); break;
#endif
    case OP_BURN: sim_burn(o->x); break;
    case OP_CHECK_DL: {
      int64_t p0 = lf_time_physical();
      bool late = lf_check_deadline(self, false);
      int64_t p1 = lf_time_physical();
      int64_t lim = t.time + P->reactions[rid].deadline;
      if ((late && p1 <= lim) || (!late && p0 > lim)) sim_fail("deadline", "lf_check_deadline gave a wrong answer");
      break;
    }
    default: break;
    }
  }
#ifdef LF_TRACE
  if (c.state & 1) { sim_note(NOTE_TRACE_VALUE, (int64_t)ns, 0, 0); tracepoint_user_value(self, user_names[self->id & 7], (long long)ns); }
#endif
  self->state = (int64_t)ns;
  for (int i = 0; i < n; i++)
    if (tk[i].tok != NULL && hash_arr((int64_t*)tk[i].tok->value, in[i].len) != tk[i].h)
      sim_fail("payload", "a payload changed while a reaction was reading it");
  if (sim_exit_now(c.node)) lf_print_error_and_exit("This reaction fails.");
  sim_body_end(&c);
}

#define FN(n) \
  static void fn_##n(void* s) { run_body((self_t*)s, n, BODY, 0); } \
  static void dl_##n(void* s) { run_body((self_t*)s, n, DEADLINE_HANDLER, 0); } \
  static void st_##n(void* s) { run_body((self_t*)s, n, STP_HANDLER, 0); }
FN(0) FN(1) FN(2) FN(3) FN(4) FN(5) FN(6) FN(7) FN(8) FN(9) FN(10) FN(11) FN(12) FN(13) FN(14) FN(15)
#define L(p) {p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7, p##8, p##9, p##10, p##11, p##12, p##13, p##14, p##15}
static reaction_function_t fn_tab[16] = L(fn_), dl_tab[16] = L(dl_), st_tab[16] = L(st_);
#ifndef LF_SINGLE_THREADED
#define WD(n) static void wd_##n(void* s) { run_body((self_t*)s, 0, WATCHDOG_HANDLER, n); }
WD(0) WD(1) WD(2) WD(3) WD(4) WD(5) WD(6) WD(7)
static watchdog_function_t wd_tab[8] = {wd_0, wd_1, wd_2, wd_3, wd_4, wd_5, wd_6, wd_7};
#endif

static void* al(self_t* s, size_t n, size_t sz) { return lf_allocate(n, sz, &s->base.allocations); }

#ifdef LF_TRACE
#include "trace_wrap.h"
#ifndef LF_SINGLE_THREADED
static void trace_async(int action, uint64_t v) { // by a thread that the runtime does not know
  for (unsigned n = v % 4; n > 0; n--) tracepoint_user_value(selfs[P->actions[action].reactor], user_names[v & 7], (long long)(v + n));
}
#endif
static char obj_names[3][64][16];
static void trace_object(int kind, int id, void* self, void* trigger) {
  if (id >= 64) return;
  char* s = obj_names[kind][id];
  s[0] = "rat"[kind]; s[1] = (char)('0' + id / 10); s[2] = (char)('0' + id % 10); s[3] = 0;
  if (kind == 0) _lf_register_trace_event(self, NULL, trace_reactor, s); else _lf_register_trace_event(self, trigger, trace_trigger, s);
  sim_trace_obj(kind, id, self, trigger, s);
}
#endif
/* ---------------------------------------------------------------- code-generated entry points */
int _lf_get_environments(environment_t** ret) {
  *ret = &env_main;
  return 1;
}
void lf_set_default_command_line_options(void) {}
void logical_tag_complete(tag_t t) {
#ifdef FEDERATED
  lf_latest_tag_confirmed(t);
#else
  (void)t;
#endif
}
#ifdef FEDERATED
#include "glue_fed.h"
#else
void lf_terminate_execution(environment_t* env) { (void)env; }
#endif
#include "reaction_macros_undef.h"

void lf_create_environments(void) {
  P = sim_prog();
  node_id = sim_node();
  int timers = 0, startup = 0, shutdown = 0, reset = 0, present = 0, modes = 0, resets = 0, wd = 0;
  for (int i = 0; i < P->n_timers; i++) timers += mine(P->timers[i].reactor);
  for (int i = 0; i < P->n_reactions; i++)
    if (mine(P->reactions[i].reactor))
      for (int j = 0; j < P->reactions[i].n_trig; j++) {
        int k = P->reactions[i].trig[j].kind;
        startup += k == TK_STARTUP; shutdown += k == TK_SHUTDOWN; reset += k == TK_RESET;
      }
  for (int i = 0; i < P->n_ports; i++)
    if (P->ports[i].is_output && mine(P->ports[i].reactor)) present += P->ports[i].width;
  for (int i = 0; i < P->n_actions; i++) present += mine(P->actions[i].reactor);
  for (int i = 0; i < P->n_reactors; i++)
    if (mine(i)) { modes += P->reactors[i].n_modes > 0; resets += P->reactors[i].reset_state; }
  for (int i = 0; i < P->n_watchdogs; i++) wd += mine(P->watchdogs[i].reactor);
#ifdef FEDERATED
  present += glue_fed_extra_present();
#endif
  environment_init(&env_main, "main", 0, (int)_lf_number_of_workers, timers, startup, shutdown, reset, present, modes, resets, wd, NULL);
}

void _lf_initialize_trigger_objects(void) {
  environment_t* env = &env_main;
  selfs = (self_t**)calloc(P->n_reactors, sizeof(void*));
  chan_v = (port_v**)calloc(P->n_chans, sizeof(void*));
  chan_itag = (tag_t**)calloc(P->n_chans, sizeof(void*));
  port_trig = (trigger_t**)calloc(P->n_ports, sizeof(void*));
  act_trig = (trigger_t**)calloc(P->n_actions, sizeof(void*));
  act_struct = (act_t**)calloc(P->n_actions, sizeof(void*));
  timer_trig = (trigger_t**)calloc(P->n_timers, sizeof(void*));
  int np = 0, nt = 0, nst = 0, nsh = 0, nre = 0, nmod = 0, nres = 0, nwd = 0;
  (void)nmod; (void)nres; (void)nwd;
  for (int i = 0; i < P->n_reactors; i++) {
    if (!mine(i)) continue;
    self_t* s = (self_t*)lf_new_reactor(sizeof(self_t));
    selfs[i] = s;
    s->base.environment = env;
    s->id = i;
    s->sp = &P->reactors[i];
    s->state = s->init = P->reactors[i].init_state;
#ifdef MODAL_REACTORS
    s->base._lf__mode_state.parent_mode = P->reactors[i].parent_mode >= 0
      ? &selfs[P->modes[P->reactors[i].parent_mode].reactor]->modes[P->modes[P->reactors[i].parent_mode].idx] : NULL;
    for (int m = 0; m < P->reactors[i].n_modes; m++) {
      s->modes[m].state = &s->base._lf__mode_state;
      s->modes[m].name = "mode";
      s->modes[m].deactivation_time = 0;
      s->modes[m].flags = 0;
    }
    if (P->reactors[i].n_modes > 0) {
      s->base._lf__mode_state.initial_mode = &s->modes[P->reactors[i].initial_mode - P->reactors[i].first_mode];
      s->base._lf__mode_state.current_mode = s->base._lf__mode_state.initial_mode;
      s->base._lf__mode_state.next_mode = NULL;
      s->base._lf__mode_state.mode_change = no_transition;
      env->modes->modal_reactor_states[nmod++] = &s->base._lf__mode_state;
    }
    if (P->reactors[i].reset_state) {
      mode_state_variable_reset_data_t* d = &env->modes->state_resets[nres++];
      d->mode = s->base._lf__mode_state.parent_mode;
      d->target = &s->state;
      d->source = &s->init;
      d->size = sizeof(s->state);
    }
#endif
#ifndef LF_SINGLE_THREADED
    if (P->reactors[i].n_watchdogs > 0) s->base.reactor_mutex = (lf_mutex_t*)calloc(1, sizeof(lf_mutex_t));
#endif
  }
#ifdef MODAL_REACTORS
#define MODEP(m) ((m) >= 0 ? &selfs[P->modes[m].reactor]->modes[P->modes[m].idx] : NULL)
/* components outside the modes of their own reactor belong to the mode their reactor is instantiated in */
#define MODEOF(m, r) MODEP((m) >= 0 ? (m) : P->reactors[r].parent_mode)
#else
#define MODEOF(m, r) NULL
#endif
  /* ports */
  for (int i = 0; i < P->n_ports; i++) {
    const sp_port* p = &P->ports[i];
    if (!mine(p->reactor)) continue;
    self_t* s = selfs[p->reactor];
    if (p->is_output) {
      for (int w = 0; w < p->width; w++) {
        port_v* o = (port_v*)al(s, 1, sizeof(port_t_));
        chan_v[p->first_chan + w] = o;
        o->_base.source_reactor = &s->base;
        o->_base.destination_channel = -1;
        env->is_present_fields[np] = &o->is_present;
#ifdef FEDERATED_DECENTRALIZED
        chan_itag[p->first_chan + w] = env->_lf_intended_tag_fields[np] = (tag_t*)al(s, 1, sizeof(tag_t));
#endif
        np++;
        if (p->ptype == PT_T) _lf_initialize_template((token_template_t*)o, sizeof(int64_t));
        else o->type.element_size = sizeof(int64_t);
      }
    } else {
      trigger_t* t = (trigger_t*)al(s, 1, sizeof(trigger_t));
      port_trig[i] = t;
      t->last_tag = NEVER_TAG;
      t->tmplt.type.element_size = sizeof(int64_t);
#ifdef FEDERATED
      t->last_known_status_tag = NEVER_TAG;
      t->intended_tag = NEVER_TAG;
      t->physical_time_of_arrival = NEVER;
#endif
    }
  }
  /* input channels point at their source or at a default struct */
  for (int i = 0; i < P->n_ports; i++) {
    const sp_port* p = &P->ports[i];
    if (p->is_output || !mine(p->reactor)) continue;
    self_t* s = selfs[p->reactor];
    lf_sparse_io_record_t* rec = NULL;
    if (p->sparse && p->width > 1) {
      rec = (lf_sparse_io_record_t*)al(s, 1, sizeof(lf_sparse_io_record_t));
      rec->capacity = p->width / 4 + 1;
      rec->size = 0;
      rec->present_channels = (size_t*)al(s, rec->capacity, sizeof(size_t));
      if (env->sparse_io_record_sizes.start == NULL) env->sparse_io_record_sizes = vector_new(1);
      vector_push(&env->sparse_io_record_sizes, (void*)&rec->size);
    }
    for (int w = 0; w < p->width; w++) {
      const sp_chan* c = &P->chans[p->first_chan + w];
      if (c->src >= 0 && mine(P->ports[P->chans[c->src].port].reactor)) {
        chan_v[p->first_chan + w] = chan_v[c->src];
      } else {
        port_v* d = (port_v*)al(s, 1, sizeof(port_t_));
        d->_base.source_reactor = &s->base;
        d->_base.destination_channel = -1;
        d->type.element_size = sizeof(int64_t);
        chan_v[p->first_chan + w] = d;
      }
      if (rec != NULL) {
        chan_v[p->first_chan + w]->_base.sparse_record = rec;
        chan_v[p->first_chan + w]->_base.destination_channel = w;
      }
    }
  }
  for (int i = 0; i < P->n_chans; i++) {
    const sp_chan* c = &P->chans[i];
    if (!P->ports[c->port].is_output || !mine(P->ports[c->port].reactor)) continue;
    chan_v[i]->_base.num_destinations = c->n_dst;
  }
  /* timers, actions */
  for (int i = 0; i < P->n_timers; i++) {
    if (!mine(P->timers[i].reactor)) continue;
    trigger_t* t = (trigger_t*)al(selfs[P->timers[i].reactor], 1, sizeof(trigger_t));
    timer_trig[i] = t;
    t->is_timer = true;
    t->offset = P->timers[i].offset;
    t->period = P->timers[i].period;
    t->last_tag = NEVER_TAG;
    t->mode = MODEOF(P->timers[i].mode, P->timers[i].reactor);
#ifdef FEDERATED
    t->last_known_status_tag = NEVER_TAG; t->intended_tag = NEVER_TAG; t->physical_time_of_arrival = NEVER;
#endif
    env->timer_triggers[nt++] = t;
  }
  for (int i = 0; i < P->n_actions; i++) {
    const sp_action* a = &P->actions[i];
    if (!mine(a->reactor)) continue;
    self_t* s = selfs[a->reactor];
    trigger_t* t = (trigger_t*)al(s, 1, sizeof(trigger_t));
    act_t* st = (act_t*)al(s, 1, sizeof(act_t));
    act_trig[i] = t;
    act_struct[i] = st;
    t->last_tag = NEVER_TAG;
    t->is_physical = a->physical;
    t->offset = a->min_delay;
    t->period = a->min_spacing;
    t->policy = a->policy == POL_DROP ? drop : a->policy == POL_REPLACE ? replace : defer;
    t->mode = MODEOF(a->mode, a->reactor);
    st->_base.trigger = t;
    st->parent = &s->base;
    st->source_id = -1;
    env->is_present_fields[np] = (bool*)&t->status;
#ifdef FEDERATED
    t->last_known_status_tag = NEVER_TAG; t->intended_tag = NEVER_TAG; t->physical_time_of_arrival = NEVER;
#ifdef FEDERATED_DECENTRALIZED
    env->_lf_intended_tag_fields[np] = &t->intended_tag;
#endif
#endif
    np++;
    _lf_initialize_template((token_template_t*)t, sizeof(int64_t));
    _lf_initialize_template((token_template_t*)st, sizeof(int64_t));
  }
#ifdef LF_TRACE
  for (int i = 0; i < P->n_reactors; i++) if (mine(i)) { trace_object(0, i, selfs[i], NULL); register_user_trace_event(selfs[i], user_names[i & 7]); }
  for (int i = 0; i < P->n_actions; i++) if (mine(P->actions[i].reactor)) trace_object(1, i, selfs[P->actions[i].reactor], act_trig[i]);
  for (int i = 0; i < P->n_timers; i++) if (mine(P->timers[i].reactor)) trace_object(2, i, selfs[P->timers[i].reactor], timer_trig[i]);
#endif
  /* watchdogs */
#ifndef LF_SINGLE_THREADED
  wds = (watchdog_t**)calloc(P->n_watchdogs + 1, sizeof(void*));
  for (int i = 0; i < P->n_watchdogs; i++) {
    if (!mine(P->watchdogs[i].reactor)) continue;
    self_t* s = selfs[P->watchdogs[i].reactor];
    watchdog_t* w = (watchdog_t*)al(s, 1, sizeof(watchdog_t));
    trigger_t* t = (trigger_t*)al(s, 1, sizeof(trigger_t));
    wds[i] = w;
    w->base = &s->base;
    w->trigger = t;
    t->last_tag = NEVER_TAG;
    w->expiration = NEVER;
    w->min_expiration = P->watchdogs[i].min_exp;
    w->watchdog_function = wd_tab[i];
    env->watchdogs[nwd++] = w;
  }
#endif
  /* reactions */
  for (int i = 0; i < P->n_reactions; i++) {
    const sp_reaction* R = &P->reactions[i];
    if (!mine(R->reactor)) continue;
    self_t* s = selfs[R->reactor];
    reaction_t* r = &s->r[R->number];
    r->function = fn_tab[R->number];
    r->self = s;
    r->number = R->number;
    r->name = "?";
    r->index = lf_combine_deadline_and_level(R->inferred_deadline, R->level);
    r->deadline = R->deadline;
    r->deadline_violation_handler = R->has_dl_handler ? dl_tab[R->number] : NULL;
    r->STP_handler = R->has_stp ? st_tab[R->number] : NULL;
    r->status = inactive;
    r->mode = MODEOF(R->mode, R->reactor);
    r->is_an_input_reaction = R->net_kind == 1;
    int no = 0;
    for (int j = 0; j < R->n_out; j++) no += P->ports[R->out[j]].width;
    r->num_outputs = (size_t)no;
    r->output_produced = (bool**)al(s, no + 1, sizeof(bool*));
    r->triggered_sizes = (int*)al(s, no + 1, sizeof(int));
    r->triggers = (trigger_t***)al(s, no + 1, sizeof(trigger_t**));
    no = 0;
    for (int j = 0; j < R->n_out; j++)
      for (int w = 0; w < P->ports[R->out[j]].width; w++) {
        const sp_chan* c = &P->chans[P->ports[R->out[j]].first_chan + w];
        r->output_produced[no] = &chan_v[P->ports[R->out[j]].first_chan + w]->is_present;
        r->triggers[no] = (trigger_t**)al(s, c->n_dst + 1, sizeof(trigger_t*));
        int d = 0;
        for (int q = 0; q < c->n_dst; q++) r->triggers[no][d++] = port_trig[P->chans[c->dst[q]].port];
        r->triggered_sizes[no] = d;
        no++;
      }
    for (int j = 0; j < R->n_trig; j++) {
      switch (R->trig[j].kind) {
      case TK_STARTUP: env->startup_reactions[nst++] = r; break;
      case TK_SHUTDOWN: env->shutdown_reactions[nsh++] = r; break;
      case TK_RESET: env->reset_reactions[nre++] = r; break;
      default: break;
      }
    }
  }
  /* trigger -> reactions */
  for (int pass = 0; pass < 3; pass++) {
    int n = pass == 0 ? P->n_timers : pass == 1 ? P->n_actions : P->n_ports;
    for (int i = 0; i < n; i++) {
      trigger_t* t = pass == 0 ? timer_trig[i] : pass == 1 ? act_trig[i] : port_trig[i];
      if (t == NULL) continue;
      int kind = pass == 0 ? TK_TIMER : pass == 1 ? TK_ACTION : TK_INPUT;
      int reactor = pass == 0 ? P->timers[i].reactor : pass == 1 ? P->actions[i].reactor : P->ports[i].reactor;
      int cnt = 0;
      for (int q = 0; q < P->n_reactions; q++)
        for (int j = 0; j < P->reactions[q].n_trig; j++)
          if (P->reactions[q].trig[j].kind == kind && P->reactions[q].trig[j].id == i) cnt++;
      t->reactions = (reaction_t**)al(selfs[reactor], cnt + 1, sizeof(reaction_t*));
      cnt = 0;
      for (int q = 0; q < P->n_reactions; q++)
        for (int j = 0; j < P->reactions[q].n_trig; j++)
          if (P->reactions[q].trig[j].kind == kind && P->reactions[q].trig[j].id == i)
            t->reactions[cnt++] = &selfs[P->reactions[q].reactor]->r[P->reactions[q].number];
      t->number_of_reactions = cnt;
    }
  }
  for (int i = 0; i < P->n_reactions; i++) {
    const sp_reaction* R = &P->reactions[i];
    if (!mine(R->reactor) || R->last_enabling < 0) continue;
    const sp_reaction* E = &P->reactions[R->last_enabling];
    selfs[R->reactor]->r[R->number].last_enabling_reaction = &selfs[E->reactor]->r[E->number];
  }
#ifdef FEDERATED
  glue_fed_init(env, &np);
#endif
#ifndef LF_SINGLE_THREADED
  {
    int maxl = 1;
    for (int i = 0; i < P->n_reactions; i++) if (mine(P->reactions[i].reactor) && P->reactions[i].level + 1 > maxl) maxl = P->reactions[i].level + 1;
    size_t* npl = (size_t*)calloc(maxl, sizeof(size_t));
    for (int i = 0; i < P->n_reactions; i++)
      if (mine(P->reactions[i].reactor)) npl[P->reactions[i].level]++;
    sched_params_t sp = (sched_params_t){.num_reactions_per_level = npl, .num_reactions_per_level_size = (size_t)maxl};
    lf_sched_init(env, (size_t)env->num_workers, &sp);
    free(npl);
  }
#endif
#ifdef FEDERATED
  glue_fed_connect(env);
#endif
}

#ifndef KIT
int __real_lf_clock_gettime(instant_t* now);
int __wrap_lf_clock_gettime(instant_t* now) {
  sim_clock(0, 0);
  int r = __real_lf_clock_gettime(now);
  if (r == 0) sim_clock(1, *now);
  return r;
}
#endif
int lf_reactor_c_main(int argc, const char* argv[]);
int node_main(int argc, char** argv) { return lf_reactor_c_main(argc, (const char**)argv); }
