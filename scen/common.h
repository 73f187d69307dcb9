/* Shared by the scenarios: test events that record how they are called, event trees with a reference model,
   and helpers for the library's life cycle. The callbacks of test events are instrumented like the library;
   recording and oracle functions (NOINST) are not, so that they neither race nor add scheduling points. */
#ifndef SCEN_COMMON_H
#define SCEN_COMMON_H
#ifndef _POSIX_C_SOURCE
#define _POSIX_C_SOURCE 199309L
#endif
#include <pthread.h>
#include <math.h>
#include "sim.h"
#ifndef M_PI
#define M_PI 3.14159265358979323846
#endif
#include <sph-sp/sph-sp.h>
#include <sph-sp/queue.h>
#include <sph-sp/thread-pool.h>
#include <sph-sp/futures.h>
/* in no header: used if they are there */
void sp_event_list_remove(sp_event_list_t** a, sp_event_list_t* element) __attribute__((weak));
status_t sp_event_block_generate(sp_time_t resolution, status_t (*generate)(sp_time_t, sp_time_t, sp_time_t, sp_block_t, sp_event_t*), sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* event) __attribute__((weak));

enum { N_LEAF, N_GROUP, N_GROUP_PAR, N_LAZY, N_LAZY_PAR, N_MAP, N_MAP_ISO, N_WAVE, N_NOISE, N_KINDS };
#define MAXN 340
#define MAXC 300
#define MAXLEN 4096 /* longest rendered range */
#define MAXDUR 512  /* longest modulated event */
#define CHL sp_channel_count_limit
#define TEST_GROUP "test"
typedef struct node {
  int kind, id;
  u32 start, dur; /* in the parent's time. dur: declared duration */
  int nchild;
  struct node* child[MAXC];
  struct node* parent;
  u16 order[MAXC];      /* insertion order of the children */
  u8 append;            /* is appended to its group instead of added */
  u8 eager;             /* end is zero until prepare sets it */
  u8 has_prepare, has_free;
  u8 memkind;           /* 0 none, 1 registers memory in prepare, 2 also while generating, 3 several registrations with a handler */
  u8 fail_prepare;
  int fail_at;          /* generate fails when reaching this time. -1: never */
  u8 parent_state;      /* uses memory that is registered with the parent event */
  u16 resolution;       /* not zero: writes through sp_event_block_generate */
  u8 own_config;        /* the configuration is registered with the event */
  u8 yields;            /* extra scheduling points while generating */
  sp_map_event_config_t mapc;
  sp_wave_event_config_t wavec, wave_live; /* live: changed by the event */
  sp_noise_event_config_t noisec;
  sp_sample_t* amod;
  sp_time_t *fmod, *pmod, *wmod;
  u32* state;           /* instrumented user data, allocated in prepare */
  /* history */
  u32 created, prepared, prepare_ok, freed, gens, next, maps;
  u32 handler_calls, handler_added;
  u32 block_pos;
  u32 bad_order;
  int started, in_cb, failed;
} node;
extern node nodes[MAXN];
extern int nnodes;
extern int empty_range;
extern int callbacks_active; /* callbacks of test events that are running now */
extern u64 callbacks_total;
extern int fail_reported[MAXN]; /* ids of nodes that reported a failure */
extern int nfail_reported;
extern int any_callback_memory_failure;

typedef struct {
  int max_nodes, max_depth, max_root, par, lazy, maps, wave, noise, noise_mod, eager, appends, fails, max_dur, max_start, mem, clip, nopreps, only_par;
} treeopt;
treeopt treeopt_all(void);
node* gen_tree(const treeopt* o);               /* a virtual root: N_GROUP whose children are the top-level events */
node* make_leaf(u32 dur, node* parent);          /* without memory and failures */
status_t build_event(node* n, sp_event_t* out); /* on failure nothing remains */
status_t build_list(node* root, sp_event_list_t** list); /* children of root, sorted for sp_seq. on failure nothing remains */
u32 tree_end(const node* root);
void tree_reset_history(void);
void tree_reset_history_noise(node* n);
void describe_tree(const node* n);
int tree_has(const node* n, int kind);
/* adds the model of everything below root within [lo, hi) to out. cuts: block boundaries, lo first and hi last, for noise with modulation */
void model_add(const node* root, u32 lo, u32 hi, double* const* out, int channels, const u32* cuts, int ncuts);
void model_prepare_noise(node* root, u32 lo, u32 hi, const u32* cuts, int ncuts); /* calls the library. needs the global random state as it will be */
void check_histories(node* root, u32 lo, u32 hi, int complete); /* after everything has been freed */
void check_nothing_running(const char* when);
long leaf_value(int id, int ch, u32 t);

/* block helpers */
void* harness_malloc(size_t n); /* guarded memory of the simulated heap, never fails */
double* out_alloc(u32 n);  /* harness memory, not part of the library's heap */
u32 gen_cuts(u32 lo, u32 hi, u32* cuts, u32 max); /* draws block boundaries. returns their number, at least 2 */
void fill_pattern(double* a, u32 n, int salt);
void compare(const char* kind, const double* got, const double* want, u32 n, double tolerance, const char* what, int ch);

/* library life cycle */
u32 draw_rate(u32 usual);
void hold_begin(u32 n);
void hold_end(void);
void lib_init(u32 workers, u32 channels, u32 rate); /* must succeed */
void lib_end(const char* when);                     /* deinitialise, check threads and memory since lib_init */
void check_status_shape(status_t s, const char* what);
int status_is_memory(status_t s);
u32 pick_workers(void);
#endif
