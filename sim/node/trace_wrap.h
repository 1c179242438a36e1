/* The boundary between the runtime and the tracing plugin, as an independent record of what was traced. */
#include "tracepoint.h"
extern void sim_trace(int what, const void* rec, size_t n);
extern void sim_trace_obj(int kind, int id, const void* p, const void* trigger, const char* name);
void __real_lf_tracing_tracepoint(int worker, trace_record_nodeps_t* tr);
void __wrap_lf_tracing_tracepoint(int worker, trace_record_nodeps_t* tr) {
  sim_trace(0, tr, sizeof *tr);
  __real_lf_tracing_tracepoint(worker, tr);
  sim_trace(1, tr, sizeof *tr);
}
void __real_lf_tracing_global_shutdown(void);
void __wrap_lf_tracing_global_shutdown(void) {
  sim_trace(2, NULL, 0);
  __real_lf_tracing_global_shutdown();
  sim_trace(3, NULL, 0);
}
