/* Interface between the simulator executable (C++) and a node image (C glue + /repo sources). */
#ifndef SIM_ABI_H
#define SIM_ABI_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { PT_V = 0, PT_T = 1 };                 /* payload type of a port or action: int64 value / token array of int64 */
enum { TK_STARTUP = 0, TK_SHUTDOWN, TK_RESET, TK_TIMER, TK_ACTION, TK_INPUT };
enum { POL_DEFER = 0, POL_DROP, POL_REPLACE };
enum { CONN_LOCAL = 0, CONN_NET = 1 };
enum { BODY = 0, DEADLINE_HANDLER = 1, STP_HANDLER = 2, WATCHDOG_HANDLER = 3 };

typedef struct { int kind, id; } sp_ref;      /* TK_*, index */

typedef struct {
  int reactor, is_output, width, ptype;
  int first_chan;                             /* index into chans[] of channel 0 */
  int mut;                                    /* inputs: declared mutable */
  int sparse;                                 /* inputs: sparse multiport */
} sp_port;
typedef struct {
  int port, idx;                              /* owning port, channel number */
  int src;                                    /* inputs: source output channel or -1 */
  int n_dst; int *dst;                        /* outputs: destination input channels (local) */
} sp_chan;
typedef struct { int reactor; int64_t offset, period; int mode; } sp_timer;
typedef struct {
  int reactor, physical, ptype, policy, mode;
  int64_t min_delay, min_spacing;             /* min_spacing -1: none */
  int net_in;                                 /* index of the network input this action receives, or -1 */
  int reach;
} sp_action;
typedef struct { int reactor; int64_t min_exp; int mode; } sp_watchdog;
typedef struct { int reactor, idx; } sp_mode;
typedef struct {
  int first_reaction, n_reactions;
  int first_mode, n_modes, initial_mode;      /* global mode indices; n_modes 0: not modal */
  int parent_mode;                            /* global index of enclosing mode or -1 */
  int reset_state;                            /* state variable declared 'reset' (in its parent mode) */
  int n_watchdogs;
  int node;                                   /* federate */
  int64_t init_state;
} sp_reactor;
typedef struct {
  int reactor, number, mode;                  /* mode: global index, -1 none */
  int level;
  int64_t deadline, inferred_deadline;        /* -1: none ; inferred INT64_MAX: none */
  int has_dl_handler, has_stp;
  int n_trig; sp_ref *trig;
  int n_src; int *src;                        /* input ports read but not triggering */
  int n_out; int *out;                        /* output ports */
  int last_enabling;                          /* reaction or -1 */
  int net_kind;                               /* 0 ordinary, 1 network receiver, 2 network sender, 3 absent sender, 4 initialization of the sender */
  int net_id;
} sp_reaction;
/* A connection that crosses federates (in the sender's node an output reaction, in the receiver's an action). */
typedef struct {
  int src_chan;                               /* output channel */
  int src_node, dst_node;
  int dst_in_port_chan;                       /* destination input channel in the receiving node */
  int64_t delay;                              /* NEVER = none */
  int physical;
  int action;                                 /* receiving action id */
  int port_index;                             /* index in receiver's network input table */
  int64_t sta, staa;
  int ptype;
  int zdc;                                    /* part of a zero-delay cycle of federates */
  int fwd;                                    /* receiver forwards the token of the message instead of copying the data */
  int p2p;                                    /* messages travel directly between the federates */
} sp_net;

typedef struct {
  int n_reactors; sp_reactor *reactors;
  int n_ports; sp_port *ports;
  int n_chans; sp_chan *chans;
  int n_timers; sp_timer *timers;
  int n_actions; sp_action *actions;
  int n_watchdogs; sp_watchdog *watchdogs;
  int n_modes; sp_mode *modes;
  int n_reactions; sp_reaction *reactions;
  int n_nets; sp_net *nets;
  int n_levels;
} sp_prog;

/* One observed input of a reaction invocation. */
typedef struct {
  int kind;                                   /* TK_ACTION or TK_INPUT */
  int id;                                     /* action index or input channel index */
  int present;
  int has_value;
  int64_t len;
  uint64_t val;                               /* value or hash of contents */
  uint64_t first;
  int64_t itag_time; uint32_t itag_ms;        /* intended tag (federated) */
} sp_in;

enum {
  OP_SET_V, OP_SET_T_NEW, OP_SET_T_FWD, OP_SCHED_V, OP_SCHED_NONE, OP_SCHED_T_NEW, OP_SCHED_T_FWD,
  OP_STOP, OP_MODE, OP_WD_START, OP_WD_STOP, OP_BURN, OP_CHECK_DL, OP_SPAWN, OP_JOIN
};
typedef struct {
  int op;
  int a;                                      /* channel / action / mode / watchdog */
  int b;                                      /* input index, mode change type, variant */
  int64_t x;                                  /* delay / length */
  uint64_t v;                                 /* value / payload id */
} sp_op;

typedef struct {
  int node;
  int reaction;                               /* or watchdog index when kind==WATCHDOG_HANDLER */
  int kind;
  int64_t tag_time; uint32_t tag_ms;
  int64_t start_time;
  int n_in; sp_in *in;
  uint64_t state;
} sp_call;

/* Call-backs implemented by the simulator. */
const sp_prog *sim_prog(void);
int sim_node(void);
const char *sim_cfg_str(const char *key);
int64_t sim_cfg_int(const char *key);
void sim_body_begin(sp_call *c);              /* reaction has started (before inputs are read) */
int sim_body(sp_call *c, sp_op *ops, int max_ops, uint64_t *new_state);  /* returns number of effects */
void sim_body_end(sp_call *c);
int sim_exit_now(int node);                    /* the reaction ends the process with an error */
void sim_burn(int64_t ns);
void sim_clock(int done, int64_t value);      /* around every reading of physical time */
void sim_note(int code, int64_t a, int64_t b, int64_t c);
void sim_fail(const char *cls, const char *msg);
void sim_sched_call(int action, uint64_t payload, int64_t extra, int after); /* after=0 before call, 1 after call */
enum { NET_SEND = 0, NET_SENT, NET_RECV, NET_ABSENT };
void sim_net_event(int what, int net, int64_t tag_time, uint32_t tag_ms, int64_t len, uint64_t hash, uint64_t first, int64_t itag_time, uint32_t itag_ms);
enum { NOTE_STOP_CALL = 1, NOTE_STOP_RET, NOTE_CHECK_DL, NOTE_WD_START, NOTE_WD_STOP, NOTE_ITER, NOTE_TERMINATE, NOTE_TRACE_VALUE, NOTE_SYNCED };

#ifdef __cplusplus
}
#endif
#endif
