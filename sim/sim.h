/* Interface of the deterministic simulator.
   One run = one forked child = one seed. Everything that can differ between two executions of the code under test
   (which thread runs, when a sleep ends, whether a call fails, what malloc returns) is decided here by sim_choose. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef uintptr_t uptr;

enum { S_OPS, S_SCHED, S_FAULT, S_N };

/* fault kinds, counted when they really fire */
#define SIM_FAULTS(X) \
  X(ALLOC_FAIL) X(ALLOC_FAIL_NESTED) X(THREAD_CREATE_FAIL) X(SPURIOUS_WAKEUP) X(MULTI_WAKEUP) X(SLEEP_EINTR) X(SLEEP_OVERLONG) \
  X(PREEMPTION) X(THREAD_STALL) X(OPEN_FAIL) X(WRITE_EIO) X(DISK_FULL) X(READ_EIO) X(SHORT_READ) X(SEEK_FAIL) X(CLOSE_FAIL) \
  X(WRITER_CRASH) X(TORN_WRITE) X(FILE_TRUNCATED) X(BYTE_FLIP) X(CHUNK_INSERTED) X(CALLBACK_FAIL) X(HEAP_DIRTY) X(HEAP_REUSE)
enum {
#define X(a) F_##a,
  SIM_FAULTS(X)
#undef X
  F_N
};

#define SIM_PROBES(X) \
  X(two_files) X(two_streams) X(held_futures) X(mixed_modes) X(late_times) X(path_reused) X(steady_blocks) X(noise_incomplete) X(path_large) X(sound_rate) X(long_events) X(noise_first) X(crowd) X(parallel_render) X(nested_parallel) X(workers_1) X(workers_many) X(more_tasks_than_workers) X(main_slept) X(worker_waited) \
  X(help_or_inline) X(event_fail_prepare) X(event_fail_generate) X(fail_while_others_run) X(render_abandoned) X(render_after_failure) \
  X(multi_block) X(one_sample_block) X(empty_block) X(lazy_group) X(end_zero) X(map_event) X(map_isolated) X(wave_event) X(noise_event) X(noise_mod) \
  X(init_failed) X(init_ok) X(reinit) X(pool_finish_nowait) X(pool_discard) X(pool_two_producers) X(list_ties) X(list_remove) X(list_add_failed) \
  X(group_append) X(segment_shorter_than_ir) X(ir_grow) X(ir_shrink) X(ir_kind_change) X(update_failed) X(update_failed_then_used) \
  X(op_failed_reported) X(op_succeeded_under_faults) X(op_retry_ok) X(reg_grow) X(reg_many) X(rng_large) X(random_many) X(path_huge) X(file_many_blocks) X(long_blocks) X(filter_large) X(reg_ensure) X(file_large) X(file_empty_write) X(file_multi_write) X(file_error_seen) \
  X(file_ok_under_faults) X(read_past_end) X(read_damaged_rejected) X(read_damaged_accepted) X(range_start_nonzero) X(path_backwards) X(path_repeat) \
  X(path_bezier) X(path_nested) X(rng_split) X(random_exhausted) X(parallel_operations) X(noise_concurrent_seed) X(rerun_compared) X(other_copy) X(other_order) X(plot_written) X(plot_failed) X(filter_short_segment) X(phase_wrap) X(eager_alone)
enum {
#define X(a) P_##a,
  SIM_PROBES(X)
#undef X
  P_N
};
#define PROBE(a) sim_probe(P_##a)

#define NOINST __attribute__((no_sanitize("thread"), noinline))

void sim_probe(int id);
void sim_fired(int fault);
u32 sim_choose(int stream, u32 n); /* 0..n-1; 0 is always the simplest alternative */
u32 sim_ops_pos(void);
void sim_ops_rewind(u32 pos);
#define OP(n) sim_choose(S_OPS, (n))
#define FAULT(n) sim_choose(S_FAULT, (n))
/* lo..hi inclusive, lo simplest */
#define OPR(lo, hi) ((lo) + sim_choose(S_OPS, (hi) - (lo) + 1))

void sim_violation(const char* kind, const char* format, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_trace(const char* format, ...) __attribute__((format(printf, 1, 2)));
void sim_desc(const char* format, ...) __attribute__((format(printf, 1, 2)));
void sim_hash_u64(u64 a);
void sim_hash_bytes(const void* a, size_t n);
void sim_nontrivial(void); /* this run counts as non-trivial by the rule of the check */
int sim_is_tsan(void);
int sim_tracing(void);

/* fault configuration of this run */
enum {
  FM_ALLOC = 1, FM_THREAD = 2, FM_WAKE = 4, FM_SLEEP = 8, FM_OPEN = 16, FM_WRITE = 32, FM_SEEK = 64, FM_CLOSE = 128, FM_READ = 256, FM_HEAP = 512
};
void sim_faults_setup(u32 mask); /* draws which of the kinds in mask are active in this run and how */
void sim_faults_on(void);
void sim_faults_off(void);
int sim_faults_enabled(void);
int sim_alloc_faults_fired(void);  /* count since run start */
int sim_io_faults_fired(void);
int sim_thread_faults_fired(void);
void sim_alloc_fail_at(u32 n); /* the n-th (1..) allocation from now on fails, 0 disables */
void* sim_malloc_sure(size_t n); /* for harnesses: does not fail and is not counted */
u32 sim_alloc_count(void);     /* allocations requested so far */

/* heap */
void* sim_malloc(size_t size);
void* sim_calloc(size_t a, size_t b);
void* sim_realloc(void* a, size_t size);
void sim_free(void* a);
u64 sim_heap_mark(void);
void sim_leak_check(u64 mark, const char* what); /* violation if memory allocated since mark is still allocated */
u64 sim_heap_live(void);
int sim_addressable(const void* a, size_t n); /* completely inside live heap memory or not heap at all */
void sim_heap_check(void);                    /* canaries and freed memory */
u32 sim_heap_fill(void);
void sim_heap_set_fill(u32 mode);             /* content of new memory: 0 zero 1 0xcb 2 0xff 3 mixed 4 doubles */
void sim_heap_set_reuse(u32 on);
void sim_heap_skip(u32 bytes);

/* threads and time */
void sim_sched_setup(int enable_preempt);
u64 sim_now(void);
int sim_fiber(void);
int sim_live_threads(void); /* threads that have not ended, without the main one */
void sim_yield(void);
u64 sim_switches(void);
u64 sim_sync_ops(void);
int sim_all_settled(u32 max_steps); /* let other threads run until they end or all wait; 1: all waiting or ended */
u64 sim_event_seq(void);            /* global event sequence number */

/* files */
int sim_file_exists(const char* path);
u8* sim_file_data(const char* path, u32* size);
void sim_file_put(const char* path, const void* data, u32 size);
int sim_open_files(void);
void sim_disk_reset(void);
const char* sim_last_command(u32* count); /* given to system() */
void sim_disk_crash_at(u32 device_write); /* keep an image of the disk as of this device write (1..); 0 off */
int sim_disk_crash_taken(void);
u8* sim_disk_crash_image(const char* path, u32* size);
void sim_disk_stdio_buffer(u32 size); /* 0: unbuffered, else size of the stdio buffer of files opened afterwards */

typedef struct {
  const char* name;
  void (*run)(void);
} sim_scenario_t;
extern const sim_scenario_t sim_scenarios[];
#endif
