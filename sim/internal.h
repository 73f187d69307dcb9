#ifndef SIM_INTERNAL_H
#define SIM_INTERNAL_H
#include "sim.h"
#define LOG_MAX_SCHED (1u << 18)
#define LOG_MAX_OTHER (1u << 16)
#define STACK_PCS 12
#define DESC_MAX 2000
#define TRACE_MAX (1u << 17)
enum { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_INCONCLUSIVE = 3 };
typedef struct {
  int status;
  char kind[48];
  char msg[1500];
  u32 npcs, npcs2;
  u64 pcs[STACK_PCS], pcs2[STACK_PCS]; /* where it happened, and the other place involved */
  u64 hash;      /* everything observable: outputs, choices, event order */
  u64 sched_hash;
  u64 accesses, sync_ops, switches, simtime, allocs, alloc_bytes, threads, choices;
  u32 nontrivial;
  u32 fired[F_N];
  u32 probes[P_N];
  char desc[DESC_MAX];
  u32 loglen[S_N];
  u32 log_overflow;
  u32 log_ops[LOG_MAX_OTHER];
  u32 log_fault[LOG_MAX_OTHER];
  u32 log_sched[LOG_MAX_SCHED];
  u32 trace_len;
  char trace[TRACE_MAX];
} sim_result_t;
typedef struct {
  u32 len[S_N];
  u32* log[S_N];
} sim_logs_t;
void core_map_arenas(void);
/* runs the scenario to its end in this process and exits. logs: replay these (explore = 0) */
void core_run(const sim_scenario_t* s, u64 seed, u64 index, sim_result_t* out, const sim_logs_t* replay, int trace) __attribute__((noreturn));
u64 splitmix(u64* s);
extern const char* sim_fault_names[F_N];
extern const char* sim_probe_names[P_N];
#endif
