/* Small native driver for demonstrations: a program description executed by the real runtime on real threads. */
#ifndef KIT_H
#define KIT_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdint.h>
#include "abi.h"
typedef struct { int reaction, kind, node; int64_t t; uint32_t m; int n_in; sp_in in[24]; uint64_t state; int64_t b, e; } rec_t;
extern rec_t recs[100000];
extern int n_recs;
/* building */
int k_reactor(int64_t init);
int k_port(int reactor, int output, int width, int ptype);        /* returns the port; channels start at k_chan(port) */
int k_chan(int port);
int k_timer(int reactor, int64_t offset, int64_t period);
int k_action(int reactor, int physical, int ptype, int64_t min_delay);
int k_reaction(int reactor);
int k_watchdog(int reactor, int64_t min_exp);
int k_mode(int reactor);                                           /* first one is initial */
void k_trig(int reaction, int kind, int id);
void k_src(int reaction, int port);
void k_out(int reaction, int port);
void k_connect(int out_chan, int in_chan);
extern sp_reactor k_reactors[64]; extern sp_port k_ports[64]; extern sp_chan k_chans[256]; extern sp_timer k_timers[32]; extern sp_action k_actions[32];
extern sp_reaction k_reactions[128]; extern sp_watchdog k_watchdogs[8]; extern sp_mode k_modes[16]; extern sp_net k_nets[8]; extern int k_n_nets;
void k_arg(const char* a);                                         /* command-line argument of the program */
/* supplied by the demonstration */
void program(void);
int body(sp_call* c, sp_op* ops);                                  /* fills ops, returns their number */
void verify(void);                                                 /* after the end; calls bad() */
void bad(const char* fmt, ...);                                    /* demonstration fails */
sp_op op(int kind, int a, int b, int64_t x, uint64_t v);
int ran(int reaction, int kind);                                   /* number of invocations */
rec_t* find(int reaction, int64_t t, uint32_t m);
extern int k_wait_async;                                           /* asynchronous threads: supplied by async_next() */
int async_next(int thread, int64_t* wait, int* op, int* action, int64_t* extra, uint64_t* v, int64_t* len);
#define MSEC(x) ((int64_t)(x) * 1000000)
#define SECS(x) ((int64_t)(x) * 1000000000)
int64_t k_now(void);
extern int k_node;
#endif
