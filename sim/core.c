/* The simulator: choices, fibers and scheduler, synchronisation primitives, clock, heap with validity tracking,
   happens-before race detection. The code under test is linked against sim_* through renamed symbols and never reaches libc for any of these. */
#define _GNU_SOURCE
#include "internal.h"
#include <errno.h>
#include <link.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <time.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>

#define NF 200
#define HEAP_BASE 0x100000000000ull
#define HEAP_SIZE (512ull << 20)
#define ASH_BASE 0x110000000000ull  /* addressability, one byte per 8 bytes of heap */
#define RSH_BASE 0x120000000000ull  /* race slots of heap: 4*8 bytes per 8 bytes */
#define RPC_BASE 0x130000000000ull  /* pcs of the slots: 4*4 bytes per 8 bytes */
#define STK_BASE 0x140000000000ull
#define STK_ONE (512ull << 10)
#define STK_SIZE (STK_ONE * NF)
#define SRSH_BASE 0x150000000000ull
#define SRPC_BASE 0x160000000000ull
#define GRSH_BASE 0x170000000000ull
#define GRPC_BASE 0x180000000000ull
#define BLK_BASE 0x190000000000ull /* block table */
#define CS_BASE 0x1a0000000000ull  /* shadow call stacks */
#define CS_ONE (64u << 10)
#define MAX_BLOCKS (1u << 20)
#define ALLOC_LIMIT (128ull << 20)

const char* sim_fault_names[F_N] = {
#define X(a) #a,
  SIM_FAULTS(X)
#undef X
};
const char* sim_probe_names[P_N] = {
#define X(a) #a,
  SIM_PROBES(X)
#undef X
};

extern char __data_start, _end;
static uptr g_lo, g_size;
static sim_result_t* R;
static int active; /* the scenario is running */
static int want_trace;

/* ---------- random numbers, choices, log ---------- */

u64 splitmix(u64* s) {
  u64 z = (*s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
static u64 prng[S_N + 1]; /* last: strategy state, never consulted in replay decisions */
static u32* ch_log[S_N];
static u32 ch_pos[S_N], ch_len[S_N], ch_max[S_N], ch_used[S_N];
static int ch_replay;
static u64 event_seq;

static inline u64 rnd(int s) { return splitmix(&prng[s]); }
static inline void hash_mix(u64* h, u64 a) {
  *h ^= a + 0x9e3779b97f4a7c15ull + (*h << 6) + (*h >> 2);
  *h *= 0xff51afd7ed558ccdull;
}
void sim_hash_u64(u64 a) { hash_mix(&R->hash, a); }
void sim_hash_bytes(const void* a, size_t n) {
  const u8* b = a;
  u64 h = n;
  for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
  sim_hash_u64(h);
}
static u32 choose_proposed(int st, u32 n, u32 proposed) {
  u32 v;
  if (n < 2) return 0;
  if (ch_pos[st] < ch_len[st]) {
    v = ch_log[st][ch_pos[st]++] % n;
    if (ch_replay && ch_pos[st] > ch_used[st]) ch_log[st][ch_pos[st] - 1] = v; /* first use; it may be read again after sim_ops_rewind */
  } else {
    v = ch_replay ? 0 : proposed % n;
    if (ch_pos[st] < ch_max[st]) {
      ch_log[st][ch_pos[st]] = v;
      ch_pos[st]++;
      ch_len[st] = ch_pos[st];
    } else R->log_overflow = 1;
  }
  if (ch_pos[st] > ch_used[st]) ch_used[st] = ch_pos[st];
  R->choices++;
  if (st == S_SCHED) hash_mix(&R->sched_hash, v);
  hash_mix(&R->hash, v * 4 + st);
  return v;
}
u32 sim_choose(int st, u32 n) {
  if (n < 2) return 0;
  return choose_proposed(st, n, (u32)(rnd(st) >> 33));
}
u32 sim_ops_pos(void) { return ch_pos[S_OPS]; }
void sim_ops_rewind(u32 pos) { ch_pos[S_OPS] = pos; }
void sim_probe(int id) { R->probes[id]++; }
void sim_fired(int f) { R->fired[f]++; }
void sim_nontrivial(void) { R->nontrivial = 1; }
u64 sim_event_seq(void) { return ++event_seq; }
int sim_tracing(void) { return want_trace; }

/* ---------- fibers ---------- */

enum { FS_FREE, FS_RUN, FS_BLOCKED, FS_SLEEP, FS_DONE };
typedef struct fiber {
  int id, state;
  void* sp;
  u32* vc;
  void* (*start)(void*);
  void* arg;
  void* ret;
  int detached, joined;
  void* wait_obj;
  int woken;    /* result of a cond wait: 1 by signal */
  u64 due;
  int err;
  u64* cs;      /* shadow call stack pointer */
  u64* cs_base;
  u32 nclock;
  int prio;
  u64 ran;
  void* tlscopy;
} fiber;
static fiber fibers[NF];
static u32 vcs[NF][NF];
static fiber* cur;
static int nfib;       /* fiber ids handed out */
static int nalive;     /* not done */
static void* base_sp;
static u64 now_ns;
static u64 accesses, sync_ops, switches, last_progress;
static u64 idle_wakes;
static int fair;
static u32 npreempt;
static u32 gap; /* accesses until next preemption, 0 none */
static int ever_threads;
static void* tls_block;
static size_t tls_size;

/* strategy of this run, used only for proposing */
static struct {
  int kind; /* 0 random walk, 1 priorities, 2 sticky, 3 starve one, 4 round robin like */
  u32 stay; /* of 16 */
  u32 gapkind;
  u32 sleeper; /* of 16 */
  int victim;
  u32 pct_changes;
} strat;

#if defined(__x86_64__)
__attribute__((naked, noinline)) static void swtch(void** save, void* to) {
  __asm__ volatile(
    "pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n subq $8,%rsp\n stmxcsr (%rsp)\n fnstcw 4(%rsp)\n"
    "movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
    "ldmxcsr (%rsp)\n fldcw 4(%rsp)\n addq $8,%rsp\n popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n");
}
#else
#error "x86-64 only"
#endif

static void finish(int status) __attribute__((noreturn));
static void finish(int status) {
  active = 0;
  R->accesses = accesses;
  R->sync_ops = sync_ops;
  R->switches = switches;
  R->simtime = now_ns;
  R->threads = nfib ? nfib - 1 : 0;
  for (int i = 0; i < S_N; i++) R->loglen[i] = ch_used[i];
  hash_mix(&R->hash, status);
  __sync_synchronize();
  R->status = status;
  _exit(0);
}
static u32 take_stack(u64* out) {
  u32 n = 0;
  if (cur && cur->cs)
    for (u64* p = cur->cs; p > cur->cs_base && n < STACK_PCS; p--) out[n++] = p[-1];
  return n;
}
static void set_violation_v(const char* kind, const char* f, va_list ap) {
  snprintf(R->kind, sizeof R->kind, "%s", kind);
  vsnprintf(R->msg, sizeof R->msg, f, ap);
  u32 k = R->npcs; /* a caller may have set the innermost pc already */
  u64 tmp[STACK_PCS];
  u32 n = take_stack(tmp);
  for (u32 i = 0; i < n && k < STACK_PCS; i++) R->pcs[k++] = tmp[i];
  R->npcs = k;
}
void sim_violation(const char* kind, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  set_violation_v(kind, f, ap);
  va_end(ap);
  if (want_trace) sim_trace("VIOLATION %s: %s", kind, R->msg);
  finish(ST_VIOLATION);
}
void sim_trace(const char* f, ...) {
  if (!want_trace) return;
  if (R->trace_len + 400 > TRACE_MAX) return;
  va_list ap;
  va_start(ap, f);
  int n = snprintf(R->trace + R->trace_len, 64, "%6llu %10.6fs T%d ", (unsigned long long)(sync_ops), now_ns / 1e9, cur ? cur->id : -1);
  R->trace_len += n;
  n = vsnprintf(R->trace + R->trace_len, 300, f, ap);
  if (n > 299) n = 299;
  R->trace_len += n;
  R->trace[R->trace_len++] = '\n';
  va_end(ap);
}
void sim_desc(const char* f, ...) {
  size_t l = strlen(R->desc);
  if (l + 2 >= DESC_MAX) return;
  va_list ap;
  va_start(ap, f);
  vsnprintf(R->desc + l, DESC_MAX - l, f, ap);
  va_end(ap);
}

/* ---------- race detection ---------- */
/* slot: epoch 32 | fid 8 | mask 8 | write 1 | atomic 1 */
#define SLOT(e, f, m, w, a) ((u64)(u32)(e) << 32 | (u64)(f) << 24 | (u64)(m) << 16 | (u64)(w) << 1 | (u64)(a) << 2 | 1)
static inline u64* race_slots(uptr a, u32** pcs) {
  uptr o;
  if ((o = a - HEAP_BASE) < HEAP_SIZE) {
    *pcs = (u32*)(RPC_BASE + (o >> 3) * 16);
    return (u64*)(RSH_BASE + (o >> 3) * 32);
  }
  if ((o = a - STK_BASE) < STK_SIZE) {
    *pcs = (u32*)(SRPC_BASE + (o >> 3) * 16);
    return (u64*)(SRSH_BASE + (o >> 3) * 32);
  }
  if ((o = a - g_lo) < g_size) {
    *pcs = (u32*)(GRPC_BASE + (o >> 3) * 16);
    return (u64*)(GRSH_BASE + (o >> 3) * 32);
  }
  return 0;
}
static const char* where_is(uptr a, char* buf);
static void race_report(uptr a, u64 v, u32 oldpc, int write, uptr pc, const char* extra) {
  char b[200];
  R->npcs = 1;
  R->pcs[0] = pc;
  R->npcs2 = 1;
  R->pcs2[0] = oldpc;
  sim_violation("race", "data race on %s: %s by thread %d%s and earlier unordered %s by thread %d", where_is(a, b), write ? "write" : "read", cur->id, extra,
    (v >> 1) & 1 ? "write" : "read", (int)((v >> 24) & 255));
}
static inline void race_access(uptr a, u32 size, int write, int atomic, uptr pc, const char* extra) {
  u32 fid = cur->id;
  u32 epoch = cur->nclock;
  u32* vc = cur->vc;
  while (size) {
    u32 off = a & 7;
    u32 n = 8 - off;
    if (n > size) n = size;
    u32 mask = ((1u << n) - 1) << off;
    u32* pcs;
    u64* s = race_slots(a, &pcs);
    if (!s) return;
    u64 nv = SLOT(epoch, fid, mask, write, atomic);
    int stored = 0;
    for (int i = 0; i < 4; i++) {
      u64 v = s[i];
      if (!v) {
        if (!stored) { s[i] = nv; pcs[i] = (u32)pc; stored = 1; }
        break;
      }
      u32 m = (v >> 16) & 255;
      if (!(m & mask)) continue;
      u32 vf = (v >> 24) & 255;
      u32 vw = (v >> 1) & 1;
      if (vf == fid) {
        if (!stored && m == mask && (vw == (u32)write || write) && ((v >> 2) & 1) == (u32)atomic) { s[i] = nv; pcs[i] = (u32)pc; stored = 1; }
        continue;
      }
      u32 ve = (u32)(v >> 32);
      if (ve > vc[vf]) {
        if ((vw | write) && !(((v >> 2) & 1) && atomic)) race_report(a, v, pcs[i], write, pc, extra);
      } else if (!stored && (m & ~mask) == 0 && (write || !vw)) { s[i] = nv; pcs[i] = (u32)pc; stored = 1; }
    }
    if (!stored) {
      u32 i = (u32)(accesses ^ (a >> 3)) & 3;
      s[i] = nv;
      pcs[i] = (u32)pc;
    }
    a += n;
    size -= n;
  }
}

/* sync variables */
typedef struct sv {
  uptr addr;
  int type; /* 1 mutex 2 cond 3 sem 4 rwlock 5 barrier 6 once 7 atomic 8 spin */
  int owner, count, rec, destroyed, kind;
  int value; /* sem, barrier */
  u32 limit;
  u32 vc[NF];
  struct sv* next;
} sv;
#define SVH 1024
static sv* svtab[SVH];
static sv* sv_pool;
static u32 sv_pool_left;
static sv* sv_find(uptr a) {
  for (sv* s = svtab[(a >> 3) & (SVH - 1)]; s; s = s->next)
    if (s->addr == a) return s;
  return 0;
}
static sv* sv_get(uptr a, int type) {
  sv* s = sv_find(a);
  if (s && (s->type == type || type == 0)) return s;
  if (!s) {
    if (!sv_pool_left) {
      sv_pool_left = 64;
      sv_pool = mmap(0, sizeof(sv) * 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    }
    s = sv_pool++;
    sv_pool_left--;
    s->next = svtab[(a >> 3) & (SVH - 1)];
    svtab[(a >> 3) & (SVH - 1)] = s;
    s->addr = a;
  }
  sv* nx = s->next;
  memset(s, 0, sizeof *s);
  s->next = nx;
  s->addr = a;
  s->type = type;
  s->owner = -1;
  return s;
}
static void sv_drop_range(uptr a, size_t n) {
  for (u32 h = 0; h < SVH; h++) {
    sv** p = &svtab[h];
    while (*p) {
      sv* s = *p;
      if (s->addr - a < n) {
        if (s->type == 1 && s->owner >= 0) sim_violation("sync-misuse", "memory of a locked mutex freed");
        for (int i = 0; i < nfib; i++)
          if (fibers[i].state == FS_BLOCKED && fibers[i].wait_obj == (void*)s->addr) sim_violation("sync-misuse", "memory of a synchronisation object freed while thread %d waits on it", i);
        *p = s->next;
      } else p = &s->next;
    }
  }
}
static inline void vc_join(u32* a, const u32* b) {
  for (int i = 0; i < nfib; i++)
    if (b[i] > a[i]) a[i] = b[i];
}
static inline void tick(fiber* f) {
  f->nclock++;
  f->vc[f->id] = f->nclock;
}
static inline void vc_release(sv* s) {
  vc_join(s->vc, cur->vc);
  tick(cur);
}
static inline void vc_acquire(sv* s) { vc_join(cur->vc, s->vc); }

/* ---------- heap ---------- */
typedef struct {
  uptr addr;
  u64 size;
  u32 state; /* 1 live 2 freed */
  u32 cls;
  u32 npcs, nfpcs;
  u32 pcs[6], fpcs[6];
  u32 fid, ffid;
} block;
static block* blocks = (block*)BLK_BASE;
static u32 nblocks;
static uptr heap_top;
static u32 heap_fill_mode, heap_reuse;
static u64 live_count, live_bytes;
static u32 alloc_seq;
#define REUSE_CLASSES 64
static u32 reuse_head[REUSE_CLASSES]; /* index + 1 of a freed block, chained through fpcs[5] */
static u64 cfg_alloc_countdown;       /* current countdown, 0 off */
static u32 manual_countdown;
static u32 faults_allowed;
static int faults_active;
static struct {
  u32 mask;
  u32 alloc_mode; /* 0 off 1 single 2 repeated 3 burst 4 all from */
  u32 alloc_window;
  u32 alloc_burst;
  u32 wake, sleep, thread;
  u32 open, write, seek, close, read, cap;
} fc;
static u32 nalloc_fired, nio_fired;
#define HCANARY 0x5ca1ab1e0ddba11full
#define REDZ 48

static inline u8* ash(uptr a) { return (u8*)(ASH_BASE + ((a - HEAP_BASE) >> 3)); }
static void set_ash(uptr a, size_t n, int live) {
  /* a is 8 aligned */
  u8* s = ash(a);
  size_t g = n >> 3;
  memset(s, live ? 8 : 0xfd, g);
  if (n & 7) s[g] = live ? (n & 7) : 0xfd;
}
static block* block_of(uptr a) {
  /* blocks are in address order unless reused, in which case the entry is the same */
  u32 lo = 0, hi = nblocks;
  while (lo < hi) {
    u32 m = (lo + hi) / 2;
    if (blocks[m].addr <= a) lo = m + 1;
    else hi = m;
  }
  return lo ? &blocks[lo - 1] : 0;
}
static const char* where_is(uptr a, char* buf) {
  uptr o;
  if (a - HEAP_BASE < HEAP_SIZE) {
    block* b = block_of(a);
    if (b) sprintf(buf, "heap block #%u of %llu bytes at offset %lld", (u32)(b - blocks), (unsigned long long)b->size, (long long)(a - b->addr));
    else sprintf(buf, "heap memory");
  } else if ((o = a - STK_BASE) < STK_SIZE) sprintf(buf, "stack of thread %d", (int)(o / STK_ONE));
  else if (a - g_lo < g_size) sprintf(buf, "global memory 0x%llx", (unsigned long long)a);
  else sprintf(buf, "memory");
  return buf;
}
static void bad_access(uptr a, u32 size, int write, uptr pc) __attribute__((noreturn, noinline));
static void bad_access(uptr a, u32 size, int write, uptr pc) {
  block* b = block_of(a);
  const char* kind = "heap-overflow";
  char extra[200] = "";
  if (b) {
    if (b->state == 2 && a < b->addr + b->size + REDZ) kind = "use-after-free";
    sprintf(extra, " %lld bytes after the start of %s block #%u of %llu bytes", (long long)(a - b->addr), b->state == 2 ? "freed" : "live", (u32)(b - blocks), (unsigned long long)b->size);
    R->npcs2 = 0;
    for (u32 i = 0; i < (b->state == 2 ? b->nfpcs : b->npcs) && i < 6; i++) R->pcs2[R->npcs2++] = b->state == 2 ? b->fpcs[i] : b->pcs[i];
  }
  R->npcs = 1;
  R->pcs[0] = pc;
  sim_violation(kind, "invalid %s of %u bytes by thread %d%s", write ? "write" : "read", size, cur ? cur->id : -1, extra);
}
static inline void check_heap_range(uptr a, size_t n, int write, uptr pc) {
  if (!n) return;
  uptr o = a - HEAP_BASE;
  if (o >= HEAP_SIZE) return;
  uptr e = a + n;
  uptr p = a;
  while (p < e) {
    u8 k = *ash(p);
    u32 off = p & 7;
    u32 need = 8 - off;
    if (need > e - p) need = e - p;
    if (k != 8 && (k > 8 || off + need > k)) bad_access(p, (u32)n, write, pc);
    p += need;
  }
}
int sim_addressable(const void* pa, size_t n) {
  uptr a = (uptr)pa, e = a + n;
  if (a - HEAP_BASE >= HEAP_SIZE) return 1;
  for (uptr p = a; p < e; p++) {
    u8 k = *ash(p);
    if (k != 8 && (k > 8 || (p & 7) >= k)) return 0;
  }
  return 1;
}
static void fill_new(u8* p, size_t n) {
  if (heap_reuse == 2) return;
  switch (heap_fill_mode) {
  case 0: memset(p, 0, n); break;
  case 1: memset(p, 0xcb, n); break;
  case 2: memset(p, 0xff, n); break;
  case 3: {
    u64 s = (uptr)p;
    for (size_t i = 0; i < n; i++) {
      if (!(i & 7)) splitmix(&s);
      p[i] = (u8)(s >> (i & 7) * 8);
    }
    break;
  }
  default: {
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
      double d = 1000.5 + i;
      memcpy(p + i, &d, 8);
    }
    for (; i < n; i++) p[i] = 7;
  }
  }
}
void sim_heap_set_fill(u32 m) { heap_fill_mode = m; if (m) sim_fired(F_HEAP_DIRTY); }
u32 sim_heap_fill(void) { return heap_fill_mode; }
void sim_heap_set_reuse(u32 m) { heap_reuse = m; if (m) sim_fired(F_HEAP_REUSE); }
void sim_heap_skip(u32 n) { heap_top += (n + 15) & ~15ull; }
static void sched_point(const char* what);
static int alloc_should_fail(void) {
  if (manual_countdown && !--manual_countdown) {
    sim_fired(F_ALLOC_FAIL);
    nalloc_fired++;
    return 1;
  }
  if (!faults_active || !(fc.mask & FM_ALLOC) || !fc.alloc_mode) return 0;
  if (fc.alloc_mode == 4 && cfg_alloc_countdown == 1) goto fire;
  if (cfg_alloc_countdown && !--cfg_alloc_countdown) {
    if (fc.alloc_mode == 2) cfg_alloc_countdown = sim_choose(S_FAULT, fc.alloc_window);
    else if (fc.alloc_mode == 3) {
      if (fc.alloc_burst) { fc.alloc_burst--; cfg_alloc_countdown = 1; }
    } else if (fc.alloc_mode == 4) cfg_alloc_countdown = 1;
    goto fire;
  }
  return 0;
fire:
  sim_fired(nalloc_fired ? F_ALLOC_FAIL_NESTED : F_ALLOC_FAIL);
  nalloc_fired++;
  return 1;
}
static void record_pcs(u32* out, u32* n, uptr ra) {
  u32 k = 0;
  out[k++] = (u32)ra;
  if (cur && cur->cs)
    for (u64* p = cur->cs; p > cur->cs_base && k < 6; p--) out[k++] = (u32)p[-1];
  *n = k;
}
static void* do_alloc(size_t size, int zero, uptr ra) {
  if (!active) return calloc(1, size ? size : 1);
  alloc_seq++;
  if (alloc_should_fail()) {
    sim_trace("malloc(%zu) fails", size);
    errno = ENOMEM;
    return 0;
  }
  if (size > ALLOC_LIMIT) { errno = ENOMEM; return 0; }
  size_t rs = (size + 15) & ~15ull;
  u32 cls = rs / 16 < REUSE_CLASSES ? rs / 16 : 0;
  block* b;
  if (heap_reuse && cls && reuse_head[cls]) {
    b = &blocks[reuse_head[cls] - 1];
    reuse_head[cls] = b->fpcs[5];
  } else {
    uptr need = REDZ + rs + REDZ;
    if (heap_top + need > HEAP_BASE + HEAP_SIZE || nblocks == MAX_BLOCKS) { errno = ENOMEM; return 0; }
    b = &blocks[nblocks++];
    b->addr = heap_top + REDZ;
    b->cls = cls;
    heap_top = b->addr + rs + 16; /* the next left redzone follows */
  }
  b->size = size;
  b->state = 1;
  b->fid = cur ? cur->id : 0;
  record_pcs(b->pcs, &b->npcs, ra);
  uptr a = b->addr;
  *(u64*)(a - 8) = HCANARY;
  *(u64*)(a - 16) = HCANARY;
  set_ash(a, size, 1);
  if (zero) memset((void*)a, 0, size);
  else fill_new((u8*)a, size);
  memset((u8*)a + size, 0x5c, rs - size + 16);
  live_count++;
  live_bytes += size;
  R->allocs++;
  R->alloc_bytes += size;
  if (heap_reuse) {
    /* a new object: forget earlier accesses, they are ordered before through the allocator */
    memset((void*)(RSH_BASE + ((a - HEAP_BASE) >> 3) * 32), 0, rs / 8 * 32);
  }
  return (void*)a;
}
static void check_canary(block* b) {
  uptr a = b->addr;
  if (*(u64*)(a - 8) != HCANARY || *(u64*)(a - 16) != HCANARY) sim_violation("heap-overflow", "memory before block #%u of %llu bytes was overwritten", (u32)(b - blocks), (unsigned long long)b->size);
  size_t rs = (b->size + 15) & ~15ull;
  u8* e = (u8*)a;
  for (size_t i = b->size; i < rs + 16; i++)
    if (e[i] != 0x5c) sim_violation("heap-overflow", "memory after block #%u of %llu bytes was overwritten", (u32)(b - blocks), (unsigned long long)b->size);
}
static void do_free(void* p, uptr ra) {
  if (!p) return;
  if (!active) return; /* scenario teardown */
  uptr a = (uptr)p;
  block* b = a - HEAP_BASE < HEAP_SIZE ? block_of(a) : 0;
  R->npcs = 0;
  if (!b || b->addr != a) {
    R->npcs = 1;
    R->pcs[0] = ra;
    sim_violation("bad-free", "free of an address that was not returned by an allocation (%s)", a - HEAP_BASE < HEAP_SIZE ? "inside of the heap" : "outside of the heap");
  }
  if (b->state == 2) {
    R->npcs = 1;
    R->pcs[0] = ra;
    R->npcs2 = 0;
    for (u32 i = 0; i < b->nfpcs && i < 5; i++) R->pcs2[R->npcs2++] = b->fpcs[i];
    sim_violation("double-free", "block #%u of %llu bytes freed twice", (u32)(b - blocks), (unsigned long long)b->size);
  }
  check_canary(b);
  if (ever_threads && sim_is_tsan()) race_access(a, b->size > 65536 ? 65536 : (u32)b->size, 1, 0, ra, " (free)");
  sv_drop_range(a, b->size ? b->size : 1);
  b->state = 2;
  b->ffid = cur ? cur->id : 0;
  record_pcs(b->fpcs, &b->nfpcs, ra);
  if (b->nfpcs > 5) b->nfpcs = 5;
  set_ash(a, b->size, 0);
  live_count--;
  live_bytes -= b->size;
  if (heap_reuse && b->cls) {
    b->fpcs[5] = reuse_head[b->cls];
    reuse_head[b->cls] = (u32)(b - blocks) + 1;
    if (heap_reuse == 1) memset(p, 0xdd, b->size);
  } else memset(p, 0xdd, b->size);
}
void* sim_malloc(size_t s) { return do_alloc(s, 0, (uptr)__builtin_return_address(0)); }
void* sim_calloc(size_t a, size_t b) {
  size_t n;
  if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return 0; }
  return do_alloc(n, 1, (uptr)__builtin_return_address(0));
}
void sim_free(void* a) { do_free(a, (uptr)__builtin_return_address(0)); }
void* sim_realloc(void* p, size_t s) {
  uptr ra = (uptr)__builtin_return_address(0);
  if (!p) return do_alloc(s, 0, ra);
  if (!active) return 0;
  block* b = (uptr)p - HEAP_BASE < HEAP_SIZE ? block_of((uptr)p) : 0;
  if (!b || b->addr != (uptr)p || b->state != 1) {
    R->npcs = 1;
    R->pcs[0] = ra;
    sim_violation(b && b->addr == (uptr)p ? "use-after-free" : "bad-free", "realloc of memory that is not allocated");
  }
  if (!s) { do_free(p, ra); return 0; }
  void* q = do_alloc(s, 0, ra);
  if (!q) return 0;
  size_t n = s < b->size ? s : b->size;
  if (ever_threads && sim_is_tsan()) race_access((uptr)p, n > 65536 ? 65536 : (u32)n, 0, 0, ra, " (realloc)");
  memcpy(q, p, n);
  do_free(p, ra);
  return q;
}
char* sim_strdup(const char* s) {
  size_t n = strlen(s) + 1;
  char* r = do_alloc(n, 0, (uptr)__builtin_return_address(0));
  if (r) memcpy(r, s, n);
  return r;
}
void* sim_reallocarray(void* p, size_t n, size_t m) {
  if (m && n > (size_t)-1 / m) return 0;
  return sim_realloc(p, n * m);
}
char* sim_strndup(const char* s, size_t n) {
  size_t m = strnlen(s, n);
  char* r = do_alloc(m + 1, 0, (uptr)__builtin_return_address(0));
  if (r) memcpy(r, s, m), r[m] = 0;
  return r;
}
void* sim_aligned_alloc(size_t al, size_t s) { (void)al; return do_alloc(s, 0, (uptr)__builtin_return_address(0)); }
int sim_posix_memalign(void** o, size_t al, size_t s) {
  (void)al;
  void* p = do_alloc(s, 0, (uptr)__builtin_return_address(0));
  if (!p) return ENOMEM;
  *o = p;
  return 0;
}
u64 sim_heap_mark(void) { return nblocks; }
u64 sim_heap_live(void) { return live_count; }
u32 sim_alloc_count(void) { return alloc_seq; }
/* for harnesses: never fails because of a plan and is not counted */
void* sim_malloc_sure(size_t n) {
  u32 m = manual_countdown, q = alloc_seq;
  int f = faults_active;
  manual_countdown = 0;
  faults_active = 0;
  void* p = do_alloc(n, 0, (uptr)__builtin_return_address(0));
  manual_countdown = m;
  faults_active = f;
  alloc_seq = q;
  return p;
}
void sim_heap_check(void) {
  for (u32 i = 0; i < nblocks; i++) {
    block* b = &blocks[i];
    check_canary(b);
    if (b->state == 2 && !(heap_reuse)) {
      u8* p = (u8*)b->addr;
      for (u64 k = 0; k < b->size; k++)
        if (p[k] != 0xdd) sim_violation("use-after-free", "freed block #%u of %llu bytes was modified at offset %llu", i, (unsigned long long)b->size, (unsigned long long)k);
    }
  }
}
void sim_leak_check(u64 mark, const char* what) {
  u64 n = 0, bytes = 0;
  block* first = 0;
  for (u64 i = heap_reuse ? 0 : mark; i < nblocks; i++)
    if (blocks[i].state == 1 && i >= mark) {
      if (!first) first = &blocks[i];
      n++;
      bytes += blocks[i].size;
    }
  if (n) {
    R->npcs = 0;
    for (u32 i = 0; i < first->npcs; i++) R->pcs[R->npcs++] = first->pcs[i];
    if (cur) cur->cs = cur->cs_base;
    sim_violation("leak", "%llu blocks (%llu bytes) still allocated %s; first: block #%u of %llu bytes, allocated by thread %u", (unsigned long long)n, (unsigned long long)bytes, what, (u32)(first - blocks),
      (unsigned long long)first->size, first->fid);
  }
}

/* ---------- scheduler ---------- */

static void fiber_entry(void);
static void end_current(void) __attribute__((noreturn));
static fiber* fiber_new(void* (*f)(void*), void* arg) {
  if (nfib >= NF) sim_violation("too-many-threads", "more than %d threads were created in one run", NF);
  fiber* n = &fibers[nfib];
  memset(n, 0, sizeof *n);
  n->id = nfib++;
  n->vc = vcs[n->id];
  memset(n->vc, 0, sizeof(u32) * NF);
  if (cur) {
    vc_join(n->vc, cur->vc);
    tick(cur);
  }
  n->nclock = 1;
  n->vc[n->id] = 1;
  n->state = FS_RUN;
  n->start = f;
  n->arg = arg;
  n->cs_base = n->cs = (u64*)(CS_BASE + (u64)n->id * CS_ONE);
  n->prio = 1000 + (int)(rnd(S_N) % 1000);
  uptr top = STK_BASE + STK_ONE * (n->id + 1) - 64;
  uptr* sp = (uptr*)top;
  *--sp = 0;
  *--sp = (uptr)fiber_entry;
  for (int i = 0; i < 6; i++) *--sp = 0;
  --sp;
  u32* fp = (u32*)sp;
  __asm__ volatile("stmxcsr %0" : "=m"(fp[0]));
  __asm__ volatile("fnstcw %0" : "=m"(fp[1]));
  n->sp = sp;
  if (tls_size) {
    n->tlscopy = mmap(0, tls_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    /* initial image: as in a fresh thread */
    extern void* tls_image(void);
    memcpy(n->tlscopy, tls_image(), tls_size);
  }
  nalive++;
  idle_wakes = 0;
  return n;
}
static void to_fiber(fiber* f) {
  fiber* old = cur;
  if (f == old) return;
  old->err = errno;
  if (tls_size) {
    memcpy(old->tlscopy, tls_block, tls_size);
    memcpy(tls_block, f->tlscopy, tls_size);
  }
  cur = f;
  switches++;
  f->ran++;
  swtch(&old->sp, f->sp);
  errno = cur->err;
}
static void new_gap(void) {
  gap = 0;
  if (nalive < 2 || !active) return;
  if (fair) { gap = 997; return; }
  if (npreempt > 15000) return;
  if (!sim_is_tsan()) return;
  u32 p = 0;
  switch (strat.gapkind) {
  case 0: p = 0; break;
  case 1: p = 1 + rnd(S_N) % 12; break;
  case 2: p = 1 + rnd(S_N) % 100; break;
  case 3: p = 1 + rnd(S_N) % 1000; break;
  case 4: p = 1 + rnd(S_N) % 20000; break;
  default: p = 1u << (rnd(S_N) % 14); p += rnd(S_N) % p; break;
  }
  gap = choose_proposed(S_SCHED, 65536, p);
}
static u64 fair_start_access, fair_start_sync;
static void check_limits(void) {
  if (!ever_threads) {
    if (accesses > 300000000) sim_violation("no-progress", "the run did not finish within %llu memory accesses", (unsigned long long)accesses);
    return;
  }
  if (!fair) {
    if (accesses - last_progress > 3000000 || sync_ops > 60000) {
      fair = 1;
      fair_start_access = accesses;
      fair_start_sync = sync_ops;
      faults_active = 0;
      sim_trace("fair phase: no more faults, round robin");
    }
  } else if (accesses - fair_start_access > 40000000 || sync_ops - fair_start_sync > 300000)
    sim_violation("no-progress", "the run did not finish within %llu accesses and %llu synchronisation steps of fair scheduling without faults", (unsigned long long)(accesses - fair_start_access),
      (unsigned long long)(sync_ops - fair_start_sync));
}
static const char* blocked_list(char* b, size_t n) {
  size_t l = 0;
  b[0] = 0;
  for (int i = 0; i < nfib && l + 60 < n; i++) {
    fiber* f = &fibers[i];
    if (f->state == FS_DONE || f->state == FS_FREE) continue;
    sv* s = f->wait_obj ? sv_find((uptr)f->wait_obj) : 0;
    static const char* tn[] = { "join", "mutex", "condition", "semaphore", "rwlock", "barrier", "once", "atomic", "spinlock" };
    l += snprintf(b + l, n - l, " T%d:%s", i, f->state == FS_BLOCKED ? (s ? tn[s->type] : "join") : f->state == FS_SLEEP ? "sleeping" : "runnable");
  }
  return b;
}
/* choose who runs next. the current fiber must have its new state set */
static void pick_next(void) {
  fiber* c[NF];
  int nrun = 0, n = 0;
  check_limits();
  now_ns += 100;
  if (cur->state == FS_RUN) c[n++] = cur;
  for (int k = 1; k <= nfib; k++) {
    fiber* f = &fibers[(cur->id + k) % nfib];
    if (f != cur && f->state == FS_RUN) c[n++] = f;
  }
  nrun = n;
  /* sleepers by due time */
  for (int k = 0; k < nfib; k++)
    if (fibers[k].state == FS_SLEEP) {
      int i = n++;
      while (i > nrun && c[i - 1]->due > fibers[k].due) { c[i] = c[i - 1]; i--; }
      c[i] = &fibers[k];
    }
  if (!n) {
    char b[800];
    sim_violation("deadlock", "all threads wait forever:%s", blocked_list(b, sizeof b));
  }
  u32 v = 0;
  if (nrun == 0) {
    idle_wakes++;
    if (idle_wakes > 3000) {
      char b[800];
      sim_violation("no-progress", "a thread keeps sleeping and checking but nothing else can run:%s", blocked_list(b, sizeof b));
    }
  }
  if (n > 1) {
    if (fair) {
      if (nrun) {
        v = (cur->state == FS_RUN && nrun > 1) ? 1 : 0;
        /* sleepers whose time has come take part */
        if (n > nrun && c[nrun]->due <= now_ns) v = nrun;
      }
    } else {
      u32 p = 0;
      if (!nrun) p = (rnd(S_N) & 15) < 3 ? rnd(S_N) % n : 0;
      else if (n > nrun && (rnd(S_N) & 15) < strat.sleeper) p = nrun + rnd(S_N) % (n - nrun);
      else switch (strat.kind) {
        case 1: {
          int best = 0;
          for (int i = 1; i < nrun; i++)
            if (c[i]->prio > c[best]->prio) best = i;
          if (strat.pct_changes && (rnd(S_N) & 31) == 0) { c[best]->prio = strat.pct_changes--; }
          p = best;
          break;
        }
        case 2: p = (rnd(S_N) & 15) < 14 ? 0 : rnd(S_N) % nrun; break;
        case 3: {
          int t = 4;
          do p = rnd(S_N) % nrun;
          while (c[p]->id == strat.victim && nrun > 1 && --t);
          break;
        }
        case 4: p = cur->state == FS_RUN && nrun > 1 ? 1 : 0; break;
        default: p = (cur->state == FS_RUN && (rnd(S_N) & 15) < strat.stay) ? 0 : rnd(S_N) % nrun;
        }
      v = choose_proposed(S_SCHED, n, p);
    }
  }
  fiber* f = c[v];
  if (f->state == FS_SLEEP) {
    if (now_ns < f->due) now_ns = f->due;
    f->state = FS_RUN;
  }
  hash_mix(&R->sched_hash, f->id);
  if (f != cur && want_trace) sim_trace("-> T%d", f->id);
  if (f != cur) to_fiber(f);
  new_gap();
}
static void wake(fiber* f) {
  if (f->state == FS_BLOCKED || f->state == FS_SLEEP) {
    f->state = FS_RUN;
    idle_wakes = 0;
  }
}
static void maybe_spurious(void) {
  if (!faults_active || !fc.wake) return;
  int w[NF], n = 0;
  for (int i = 0; i < nfib; i++)
    if (fibers[i].state == FS_BLOCKED && fibers[i].wait_obj) {
      sv* s = sv_find((uptr)fibers[i].wait_obj);
      if (s && s->type == 2) w[n++] = i;
    }
  if (!n) return;
  u32 v = choose_proposed(S_FAULT, 16, (rnd(S_FAULT) % 100) < fc.wake ? 1 + rnd(S_FAULT) % 15 : 0);
  if (v) {
    sim_fired(F_SPURIOUS_WAKEUP);
    sim_trace("spurious wake-up of T%d", w[v % n]);
    wake(&fibers[w[v % n]]);
  }
}
static void sched_point(const char* what) {
  if (!active || !cur) return;
  sync_ops++;
  if (nalive < 2) return;
  if (want_trace && what) sim_trace("%s", what);
  hash_mix(&R->sched_hash, cur->id * 131 + (what ? what[0] : 0));
  maybe_spurious();
  pick_next();
}
static void block_on(void* obj) {
  cur->wait_obj = obj;
  cur->state = FS_BLOCKED;
  pick_next();
  cur->wait_obj = 0;
}
static void preempt(void) {
  int others = 0;
  for (int i = 0; i < nfib && !others; i++) others = &fibers[i] != cur && (fibers[i].state == FS_RUN || fibers[i].state == FS_SLEEP);
  npreempt++;
  if (!others) { new_gap(); return; }
  sim_fired(F_PREEMPTION);
  hash_mix(&R->sched_hash, accesses);
  pick_next();
}
int sim_fiber(void) { return cur ? cur->id : -1; }
u64 sim_now(void) { return now_ns; }
u64 sim_switches(void) { return switches; }
u64 sim_sync_ops(void) { return sync_ops; }
void sim_yield(void) { sched_point("yield"); }
int sim_live_threads(void) {
  int n = 0;
  for (int i = 1; i < nfib; i++)
    if (fibers[i].state != FS_DONE) n++;
  return n;
}
int sim_all_settled(u32 max_steps) {
  for (u32 k = 0; k < max_steps; k++) {
    int run = 0;
    for (int i = 0; i < nfib; i++)
      if (&fibers[i] != cur && fibers[i].state == FS_RUN) run++;
    if (!run) return 1;
    /* hand over directly, deterministic round robin */
    for (int j = 1; j < nfib; j++) {
      fiber* f = &fibers[(cur->id + j) % nfib];
      if (f->state == FS_RUN) {
        hash_mix(&R->sched_hash, f->id);
        now_ns += 100;
        to_fiber(f);
        new_gap();
        break;
      }
    }
  }
  return 0;
}
static void fiber_entry(void) {
  new_gap();
  cur->ret = cur->start(cur->arg);
  end_current();
}
static void end_current(void) {
  if (cur->id == 0) {
    /* scenario done */
    void* dummy;
    active = 0;
    swtch(&dummy, base_sp);
    __builtin_unreachable();
  }
  if (want_trace) sim_trace("thread ends");
  cur->state = FS_DONE;
  nalive--;
  idle_wakes = 0;
  sync_ops++;
  tick(cur);
  for (int i = 0; i < nfib; i++)
    if (fibers[i].state == FS_BLOCKED && fibers[i].wait_obj == (void*)cur) wake(&fibers[i]);
  for (u32 h = 0; h < SVH; h++)
    for (sv* s = svtab[h]; s; s = s->next)
      if (s->type == 1 && s->owner == cur->id) sim_violation("sync-misuse", "thread %d ended while holding a mutex", cur->id);
  pick_next();
  __builtin_unreachable();
}

/* ---------- pthread ---------- */
#define HANDLE(f) ((pthread_t)(0x51000000ul + (f)->id))
static fiber* by_handle(pthread_t t) {
  u64 i = (u64)t - 0x51000000ul;
  return i < (u64)nfib ? &fibers[i] : 0;
}
int sim_pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*f)(void*), void* arg) {
  if (!active) return EAGAIN;
  if (faults_active && fc.thread) {
    u32 v = choose_proposed(S_FAULT, 2, (rnd(S_FAULT) % 100) < fc.thread);
    if (v) {
      sim_fired(F_THREAD_CREATE_FAIL);
      sim_trace("pthread_create fails");
      return EAGAIN;
    }
  }
  if (!ever_threads) {
    ever_threads = 1;
  }
  fiber* n = fiber_new(f, arg);
  int ds = PTHREAD_CREATE_JOINABLE;
  if (attr) pthread_attr_getdetachstate(attr, &ds);
  n->detached = ds == PTHREAD_CREATE_DETACHED;
  *out = HANDLE(n);
  if (want_trace) sim_trace("creates T%d", n->id);
  if (nalive == 2) new_gap();
  sched_point("create");
  return 0;
}
int sim_pthread_join(pthread_t t, void** ret) {
  fiber* f = by_handle(t);
  if (!f) sim_violation("sync-misuse", "join of something that is not a thread");
  if (f->joined || f->detached) sim_violation("sync-misuse", "thread %d joined twice or detached", f->id);
  if (f == cur) return EDEADLK;
  sched_point("join");
  while (f->state != FS_DONE) block_on(f);
  f->joined = 1;
  vc_join(cur->vc, f->vc);
  if (ret) *ret = f->ret;
  return 0;
}
void sim_pthread_exit(void* ret) {
  cur->ret = ret;
  if (cur->id == 0) sim_violation("abnormal-exit", "pthread_exit in the main thread");
  end_current();
}
int sim_pthread_detach(pthread_t t) {
  fiber* f = by_handle(t);
  if (f) f->detached = 1;
  return 0;
}
pthread_t sim_pthread_self(void) { return HANDLE(cur); }
int sim_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sim_pthread_cancel(pthread_t a) { (void)a; return ENOSYS; }
int sim_sched_yield(void) { sched_point("yield"); return 0; }

/* a destroyed object carries a mark in its memory, so that a later static re-initialisation by assignment is recognised */
#define GONE_MARK 0x5dead0b1u
static void gone(sv* s, const char* what) {
  check_heap_range(s->addr, 16, 1, (uptr)__builtin_return_address(0));
  if (s->destroyed) {
    if (*(u32*)s->addr == GONE_MARK) sim_violation("sync-misuse", "%s on a destroyed object", what);
    s->destroyed = 0;
    s->owner = -1;
    s->count = s->value = 0;
  }
}
static void mark_gone(sv* s) {
  s->destroyed = 1;
  *(u32*)s->addr = GONE_MARK;
}
int sim_pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* at) {
  sv* s = sv_find((uptr)m);
  if (s && s->type == 1 && s->owner >= 0 && !s->destroyed) sim_violation("sync-misuse", "initialisation of a locked mutex");
  for (int i = 0; i < nfib; i++)
    if (fibers[i].state == FS_BLOCKED && fibers[i].wait_obj == (void*)m) sim_violation("sync-misuse", "initialisation of a mutex that thread %d waits on", i);
  s = sv_get((uptr)m, 1);
  int ty = PTHREAD_MUTEX_DEFAULT;
  if (at) pthread_mutexattr_gettype(at, &ty);
  sv* nx = s->next;
  memset(s, 0, sizeof *s);
  s->next = nx;
  s->addr = (uptr)m;
  s->type = 1;
  s->owner = -1;
  s->kind = ty;
  memset(m, 0, sizeof *m);
  return 0;
}
int sim_pthread_mutex_destroy(pthread_mutex_t* m) {
  sv* s = sv_get((uptr)m, 1);
  gone(s, "mutex destroy");
  if (s->owner >= 0) sim_violation("sync-misuse", "destruction of a locked mutex");
  for (int i = 0; i < nfib; i++)
    if (fibers[i].state == FS_BLOCKED && fibers[i].wait_obj == (void*)m) sim_violation("sync-misuse", "destruction of a mutex that thread %d waits on", i);
  mark_gone(s);
  return 0;
}
static void mutex_acquire(pthread_mutex_t* m) {
  sv* s = sv_get((uptr)m, 1);
  for (;;) {
    gone(s, "mutex lock");
    if (s->owner < 0) break;
    if (s->owner == cur->id) {
      if (s->kind == PTHREAD_MUTEX_RECURSIVE) { s->rec++; return; }
      sim_violation("deadlock", "thread %d locks a mutex it already holds", cur->id);
    }
    block_on(m);
  }
  s->owner = cur->id;
  vc_acquire(s);
}
int sim_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!active) return 0;
  sched_point("lock");
  mutex_acquire(m);
  return 0;
}
int sim_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!active) return 0;
  sched_point("trylock");
  sv* s = sv_get((uptr)m, 1);
  gone(s, "mutex trylock");
  if (s->owner >= 0) return EBUSY;
  s->owner = cur->id;
  vc_acquire(s);
  return 0;
}
static void mutex_release(pthread_mutex_t* m) {
  sv* s = sv_get((uptr)m, 1);
  gone(s, "mutex unlock");
  if (s->owner != cur->id) sim_violation("sync-misuse", "unlock of a mutex that thread %d does not hold", cur->id);
  if (s->rec) { s->rec--; return; }
  vc_release(s);
  s->owner = -1;
  for (int i = 0; i < nfib; i++)
    if (fibers[i].state == FS_BLOCKED && fibers[i].wait_obj == (void*)m) wake(&fibers[i]);
}
int sim_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!active) return 0;
  mutex_release(m);
  sched_point("unlock");
  return 0;
}
int sim_pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) {
  (void)a;
  for (int i = 0; i < nfib; i++)
    if (fibers[i].state == FS_BLOCKED && fibers[i].wait_obj == (void*)c) sim_violation("sync-misuse", "initialisation of a condition that thread %d waits on", i);
  sv* s = sv_get((uptr)c, 2);
  s->destroyed = 0;
  memset(c, 0, sizeof *c);
  return 0;
}
int sim_pthread_cond_destroy(pthread_cond_t* c) {
  sv* s = sv_get((uptr)c, 2);
  gone(s, "condition destroy");
  for (int i = 0; i < nfib; i++)
    if (fibers[i].state == FS_BLOCKED && fibers[i].wait_obj == (void*)c) sim_violation("sync-misuse", "destruction of a condition that thread %d waits on", i);
  mark_gone(s);
  return 0;
}
int sim_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  sched_point("wait");
  sv* s = sv_get((uptr)c, 2);
  gone(s, "condition wait");
  mutex_release(m);
  block_on(c);
  mutex_acquire(m);
  return 0;
}
int sim_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  sched_point("timedwait");
  sv* s = sv_get((uptr)c, 2);
  gone(s, "condition wait");
  mutex_release(m);
  cur->wait_obj = c;
  cur->state = FS_SLEEP;
  cur->due = (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec;
  if (cur->due < now_ns) cur->due = now_ns;
  cur->woken = 0;
  pick_next();
  cur->wait_obj = 0;
  mutex_acquire(m);
  return cur->woken ? 0 : ETIMEDOUT;
}
static int cond_wake(pthread_cond_t* c, int all) {
  int w[NF], n = 0;
  for (int i = 0; i < nfib; i++)
    if ((fibers[i].state == FS_BLOCKED || fibers[i].state == FS_SLEEP) && fibers[i].wait_obj == (void*)c) w[n++] = i;
  if (!n) return 0;
  if (all) {
    for (int i = 0; i < n; i++) { fibers[w[i]].woken = 1; wake(&fibers[w[i]]); }
    return n;
  }
  u32 v = fair ? 0 : sim_choose(S_SCHED, n);
  fibers[w[v]].woken = 1;
  wake(&fibers[w[v]]);
  if (want_trace) sim_trace("signal wakes T%d", w[v]);
  if (n > 1 && faults_active && fc.wake) {
    u32 x = choose_proposed(S_FAULT, 8, (rnd(S_FAULT) % 100) < fc.wake ? 1 + rnd(S_FAULT) % 7 : 0);
    if (x) {
      sim_fired(F_MULTI_WAKEUP);
      int k = w[(v + x) % n];
      fibers[k].woken = 1;
      wake(&fibers[k]);
    }
  }
  return 1;
}
int sim_pthread_cond_signal(pthread_cond_t* c) {
  sv* s = sv_get((uptr)c, 2);
  gone(s, "condition signal");
  sched_point("signal");
  cond_wake(c, 0);
  sched_point("signalled");
  return 0;
}
int sim_pthread_cond_broadcast(pthread_cond_t* c) {
  sv* s = sv_get((uptr)c, 2);
  gone(s, "condition broadcast");
  sched_point("broadcast");
  cond_wake(c, 1);
  sched_point("broadcasted");
  return 0;
}
/* rwlock, spin, barrier, once, keys, semaphores: complete enough for code that would switch to them */
int sim_pthread_rwlock_init(pthread_rwlock_t* m, const pthread_rwlockattr_t* a) { (void)a; sv* s = sv_get((uptr)m, 4); s->count = 0; s->owner = -1; s->destroyed = 0; return 0; }
int sim_pthread_rwlock_destroy(pthread_rwlock_t* m) { sv* s = sv_get((uptr)m, 4); gone(s, "rwlock destroy"); mark_gone(s); return 0; }
int sim_pthread_rwlock_rdlock(pthread_rwlock_t* m) { sched_point("rdlock"); sv* s = sv_get((uptr)m, 4); while (s->owner >= 0) block_on(m); s->count++; vc_acquire(s); return 0; }
int sim_pthread_rwlock_wrlock(pthread_rwlock_t* m) { sched_point("wrlock"); sv* s = sv_get((uptr)m, 4); while (s->owner >= 0 || s->count) block_on(m); s->owner = cur->id; vc_acquire(s); return 0; }
int sim_pthread_rwlock_unlock(pthread_rwlock_t* m) {
  sv* s = sv_get((uptr)m, 4);
  vc_release(s);
  if (s->owner == cur->id) s->owner = -1;
  else s->count--;
  for (int i = 0; i < nfib; i++) if (fibers[i].state == FS_BLOCKED && fibers[i].wait_obj == (void*)m) wake(&fibers[i]);
  sched_point("rwunlock");
  return 0;
}
int sim_pthread_spin_init(pthread_spinlock_t* m, int p) { (void)p; sv* s = sv_get((uptr)m, 8); s->owner = -1; s->destroyed = 0; return 0; }
int sim_pthread_spin_destroy(pthread_spinlock_t* m) { sv* s = sv_get((uptr)m, 8); mark_gone(s); return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t* m) { sched_point("spinlock"); sv* s = sv_get((uptr)m, 8); while (s->owner >= 0) block_on((void*)m); s->owner = cur->id; vc_acquire(s); return 0; }
int sim_pthread_spin_trylock(pthread_spinlock_t* m) { sched_point("spintry"); sv* s = sv_get((uptr)m, 8); if (s->owner >= 0) return EBUSY; s->owner = cur->id; vc_acquire(s); return 0; }
int sim_pthread_spin_unlock(pthread_spinlock_t* m) {
  sv* s = sv_get((uptr)m, 8);
  vc_release(s);
  s->owner = -1;
  for (int i = 0; i < nfib; i++) if (fibers[i].state == FS_BLOCKED && fibers[i].wait_obj == (void*)m) wake(&fibers[i]);
  sched_point("spinunlock");
  return 0;
}
int sim_pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t* a, unsigned n) { (void)a; sv* s = sv_get((uptr)b, 5); s->limit = n; s->count = 0; s->value = 0; return 0; }
int sim_pthread_barrier_destroy(pthread_barrier_t* b) { (void)b; return 0; }
int sim_pthread_barrier_wait(pthread_barrier_t* b) {
  sched_point("barrier");
  sv* s = sv_get((uptr)b, 5);
  vc_release(s);
  int gen = s->value;
  if (++s->count == (int)s->limit) {
    s->count = 0;
    s->value++;
    for (int i = 0; i < nfib; i++) if (fibers[i].state == FS_BLOCKED && fibers[i].wait_obj == (void*)b) wake(&fibers[i]);
    vc_acquire(s);
    return PTHREAD_BARRIER_SERIAL_THREAD;
  }
  while (s->value == gen) block_on(b);
  vc_acquire(s);
  return 0;
}
int sim_pthread_once(pthread_once_t* o, void (*f)(void)) {
  sched_point("once");
  sv* s = sv_get((uptr)o, 6);
  if (s->value == 0) {
    s->value = 1;
    f();
    s->value = 2;
    vc_release(s);
    for (int i = 0; i < nfib; i++) if (fibers[i].state == FS_BLOCKED && fibers[i].wait_obj == (void*)o) wake(&fibers[i]);
  }
  while (s->value != 2) block_on(o);
  vc_acquire(s);
  return 0;
}
int sim_sem_init(sem_t* m, int p, unsigned v) { (void)p; sv* s = sv_get((uptr)m, 3); s->value = v; s->destroyed = 0; return 0; }
int sim_sem_destroy(sem_t* m) { sv* s = sv_get((uptr)m, 3); gone(s, "semaphore destroy"); mark_gone(s); return 0; }
int sim_sem_wait(sem_t* m) { sched_point("semwait"); sv* s = sv_get((uptr)m, 3); gone(s, "semaphore wait"); while (s->value <= 0) block_on(m); s->value--; vc_acquire(s); return 0; }
int sim_sem_trywait(sem_t* m) { sched_point("semtry"); sv* s = sv_get((uptr)m, 3); if (s->value <= 0) { errno = EAGAIN; return -1; } s->value--; vc_acquire(s); return 0; }
int sim_sem_post(sem_t* m) {
  sv* s = sv_get((uptr)m, 3);
  gone(s, "semaphore post");
  vc_release(s);
  s->value++;
  for (int i = 0; i < nfib; i++) if (fibers[i].state == FS_BLOCKED && fibers[i].wait_obj == (void*)m) wake(&fibers[i]);
  sched_point("sempost");
  return 0;
}
static const void* keyvals[NF][16];
static u32 nkeys;
int sim_pthread_key_create(pthread_key_t* k, void (*d)(void*)) { (void)d; if (nkeys >= 16) return EAGAIN; *k = nkeys++; return 0; }
int sim_pthread_key_delete(pthread_key_t k) { (void)k; return 0; }
void* sim_pthread_getspecific(pthread_key_t k) { return (void*)keyvals[cur->id][k & 15]; }
int sim_pthread_setspecific(pthread_key_t k, const void* v) { keyvals[cur->id][k & 15] = v; return 0; }

/* time */
static int do_sleep(u64 ns, struct timespec* rem) {
  if (!active) return 0;
  sync_ops++;
  cur->due = now_ns + ns;
  int r = 0;
  if (faults_active && fc.sleep) {
    u32 v = choose_proposed(S_FAULT, 8, (rnd(S_FAULT) % 100) < fc.sleep ? 1 + rnd(S_FAULT) % 7 : 0);
    if (v && v < 4) {
      sim_fired(F_SLEEP_EINTR);
      cur->due = now_ns + ns / 4 * (v - 1);
      if (rem) { u64 left = now_ns + ns - cur->due; rem->tv_sec = left / 1000000000; rem->tv_nsec = left % 1000000000; }
      r = EINTR;
    } else if (v) {
      sim_fired(F_SLEEP_OVERLONG);
      cur->due = now_ns + ns * (v * v);
    }
  }
  if (want_trace) sim_trace("sleeps %.3fs%s", ns / 1e9, r ? " (interrupted)" : "");
  cur->state = FS_SLEEP;
  if (cur->id == 0) sim_probe(P_main_slept);
  pick_next();
  return r;
}
int sim_nanosleep(const struct timespec* a, struct timespec* rem) {
  int r = do_sleep((u64)a->tv_sec * 1000000000ull + a->tv_nsec, rem);
  if (r) { errno = r; return -1; }
  return 0;
}
int sim_clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* rem) {
  (void)c;
  u64 t = (u64)a->tv_sec * 1000000000ull + a->tv_nsec;
  if (flags & TIMER_ABSTIME) t = t > now_ns ? t - now_ns : 0;
  return do_sleep(t, rem);
}
int sim_usleep(unsigned us) { if (do_sleep((u64)us * 1000, 0)) { errno = EINTR; return -1; } return 0; }
unsigned sim_sleep(unsigned s) { return do_sleep((u64)s * 1000000000ull, 0) ? s : 0; }
int sim_clock_gettime(clockid_t c, struct timespec* t) { (void)c; now_ns += 50; t->tv_sec = now_ns / 1000000000; t->tv_nsec = now_ns % 1000000000; return 0; }
int sim_gettimeofday(struct timeval* t, void* z) { (void)z; now_ns += 50; t->tv_sec = now_ns / 1000000000; t->tv_usec = now_ns % 1000000000 / 1000; return 0; }
time_t sim_time(time_t* t) { now_ns += 50; time_t r = now_ns / 1000000000; if (t) *t = r; return r; }
clock_t sim_clock(void) { now_ns += 50; return now_ns / 1000; }

/* ---------- faults ---------- */
void sim_faults_setup(u32 mask) {
  memset(&fc, 0, sizeof fc);
  fc.mask = mask;
  static const u32 win[] = { 4, 12, 40, 120, 400 };
  if (mask & FM_ALLOC) {
    u32 m = sim_choose(S_FAULT, 8);
    fc.alloc_mode = m < 4 ? (m ? 1 : 0) : m < 6 ? 2 : m == 6 ? 3 : 4;
    if (fc.alloc_mode) {
      fc.alloc_window = win[sim_choose(S_FAULT, 5)];
      cfg_alloc_countdown = sim_choose(S_FAULT, fc.alloc_window);
      if (fc.alloc_mode == 3) fc.alloc_burst = 1 + sim_choose(S_FAULT, 4);
    }
  }
  static const u32 rate[] = { 0, 3, 12, 40 };
  if (mask & FM_WAKE) fc.wake = rate[sim_choose(S_FAULT, 4)];
  if (mask & FM_SLEEP) fc.sleep = rate[sim_choose(S_FAULT, 4)];
  if (mask & FM_THREAD) fc.thread = rate[sim_choose(S_FAULT, 4)];
  if (mask & (FM_OPEN | FM_WRITE | FM_SEEK | FM_CLOSE | FM_READ)) {
    /* mostly one kind per run */
    if (mask & FM_OPEN) fc.open = sim_choose(S_FAULT, 8) == 1 ? 1 + sim_choose(S_FAULT, 2) : 0;
    if (mask & FM_WRITE) {
      u32 k = sim_choose(S_FAULT, 5);
      if (k == 1 || k == 2) fc.write = 1 + sim_choose(S_FAULT, 6);
      if (k == 3 || k == 4) fc.cap = 1 + sim_choose(S_FAULT, k == 3 ? 60 : 3000);
    }
    if (mask & FM_SEEK) fc.seek = sim_choose(S_FAULT, 6) == 1 ? 1 + sim_choose(S_FAULT, 4) : 0;
    if (mask & FM_CLOSE) fc.close = sim_choose(S_FAULT, 6) == 1 ? 1 + sim_choose(S_FAULT, 2) : 0;
    if (mask & FM_READ) {
      u32 k = sim_choose(S_FAULT, 5);
      if (k == 1) fc.read = 1 + sim_choose(S_FAULT, 6);
    }
  }
  if (mask & FM_HEAP) {
    u32 k = sim_choose(S_FAULT, 6);
    if (k < 5) sim_heap_set_fill(k);
    if (k == 5) { sim_heap_set_fill(3); sim_heap_set_reuse(1); }
  }
}
u32 sim_fc_get(int what) { return what == 0 ? fc.open : what == 1 ? fc.write : what == 2 ? fc.cap : what == 3 ? fc.seek : what == 4 ? fc.close : fc.read; }
void sim_fc_dec(int what) {
  u32* p = what == 0 ? &fc.open : what == 1 ? &fc.write : what == 3 ? &fc.seek : what == 4 ? &fc.close : &fc.read;
  if (*p) --*p;
}
void sim_io_fired(int kind) { nio_fired++; sim_fired(kind); }
void sim_faults_on(void) { if (!fair) faults_active = 1; }
void sim_faults_off(void) { faults_active = 0; }
int sim_faults_enabled(void) { return faults_active; }
int sim_alloc_faults_fired(void) { return nalloc_fired; }
int sim_thread_faults_fired(void) { return R->fired[F_THREAD_CREATE_FAIL]; }
int sim_io_faults_fired(void) { return nio_fired; }
void sim_alloc_fail_at(u32 n) { manual_countdown = n; }

/* ---------- accesses of instrumented code ---------- */
#ifdef SIM_TSAN
int sim_is_tsan(void) { return 1; }
#else
int sim_is_tsan(void) { return 0; }
#endif
static inline __attribute__((always_inline)) void acc(uptr a, u32 size, int write, int atomic, uptr pc) {
  if (!active) return;
  uptr o = a - HEAP_BASE;
  accesses++;
  if (o < HEAP_SIZE) {
    u8 k = *ash(a);
    u32 off = a & 7;
    if (off + size > 8) check_heap_range(a, size, write, pc);
    else if (k != 8 && (k > 8 || off + size > k)) bad_access(a, size, write, pc);
  } else if (a - STK_BASE < STK_SIZE) {
    if (!ever_threads) return;
    if (nalive > 1) race_access(a, size, write, atomic, pc, "");
    return;
  } else if (a < 4096) {
    R->npcs = 1;
    R->pcs[0] = pc;
    sim_violation("null-access", "%s of %u bytes at address %llu", write ? "write" : "read", size, (unsigned long long)a);
  }
  if (!ever_threads) {
    if (!(accesses & 0xfffff)) check_limits();
    return;
  }
  if (nalive > 1) {
    if (gap && !--gap) preempt();
    if (o < HEAP_SIZE) { /* the object may have been freed meanwhile */
      u8 k = *ash(a);
      u32 off = a & 7;
      if (off + size > 8) check_heap_range(a, size, write, pc);
      else if (k != 8 && (k > 8 || off + size > k)) bad_access(a, size, write, pc);
    }
  }
  if (!(accesses & 0xffff)) check_limits();
  race_access(a, size, write, atomic, pc, "");
}
static void acc_range(uptr a, size_t n, int write, uptr pc) {
  if (!active || !n) return;
  accesses += n >> 3;
  if (a < 4096) acc(a, 1, write, 0, pc);
  check_heap_range(a, n, write, pc);
  if (!ever_threads) return;
  if (nalive > 1 && gap) {
    if (gap <= 1) { gap = 0; preempt(); check_heap_range(a, n, write, pc); }
    else gap--;
  }
  if (sim_is_tsan()) race_access(a, (u32)n, write, 0, pc, "");
}
#define RA ((uptr)__builtin_return_address(0))
#ifdef SIM_TSAN
void __tsan_init(void) {}
void __tsan_func_entry(void* pc) {
  if (!active || !cur) return;
  if ((uptr)cur->cs - (uptr)cur->cs_base < CS_ONE - 16) *cur->cs++ = (u64)pc;
}
void __tsan_func_exit(void) {
  if (!active || !cur) return;
  if (cur->cs > cur->cs_base) cur->cs--;
}
#define DEF(n) \
  void __tsan_read##n(void* a) { acc((uptr)a, n, 0, 0, RA); } \
  void __tsan_write##n(void* a) { acc((uptr)a, n, 1, 0, RA); } \
  void __tsan_unaligned_read##n(void* a) { acc((uptr)a, n, 0, 0, RA); } \
  void __tsan_unaligned_write##n(void* a) { acc((uptr)a, n, 1, 0, RA); } \
  void __tsan_volatile_read##n(void* a) { acc((uptr)a, n, 0, 0, RA); } \
  void __tsan_volatile_write##n(void* a) { acc((uptr)a, n, 1, 0, RA); } \
  void __tsan_unaligned_volatile_read##n(void* a) { acc((uptr)a, n, 0, 0, RA); } \
  void __tsan_unaligned_volatile_write##n(void* a) { acc((uptr)a, n, 1, 0, RA); }
DEF(1) DEF(2) DEF(4) DEF(8) DEF(16)
void __tsan_read_range(void* a, size_t n) { acc_range((uptr)a, n, 0, RA); }
void __tsan_write_range(void* a, size_t n) { acc_range((uptr)a, n, 1, RA); }
void __tsan_vptr_update(void** a, void* b) { (void)b; acc((uptr)a, 8, 1, 0, RA); }
void __tsan_vptr_read(void** a) { acc((uptr)a, 8, 0, 0, RA); }

/* atomics: executed sequentially consistent, ordering edges follow the given memory order */
static u32 fence_acq[NF][NF], fence_rel[NF][NF];
static int is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static int is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static void at_pre(uptr a, int size, int write, uptr pc) {
  if (!active) return;
  sync_ops++;
  if (nalive > 1) { hash_mix(&R->sched_hash, 7); maybe_spurious(); pick_next(); }
  acc(a, size, write, 1, pc);
}
static void at_load(uptr a, int mo) {
  if (!active || !ever_threads) return;
  sv* s = sv_get(a, 7);
  if (is_acq(mo)) vc_acquire(s);
  else vc_join(fence_acq[cur->id], s->vc);
}
static void at_store(uptr a, int mo, int rmw) {
  if (!active || !ever_threads) return;
  sv* s = sv_get(a, 7);
  if (!rmw) memset(s->vc, 0, sizeof s->vc);
  if (is_rel(mo)) vc_release(s);
  else vc_join(s->vc, fence_rel[cur->id]);
}
#define ATDEF(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int mo) { at_pre((uptr)a, sizeof(T), 0, RA); T v = *a; at_load((uptr)a, mo); return v; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { at_pre((uptr)a, sizeof(T), 1, RA); *a = v; at_store((uptr)a, mo, 0); } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) { at_pre((uptr)a, sizeof(T), 1, RA); T o = *a; at_load((uptr)a, mo); *a = v; at_store((uptr)a, mo, 1); return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int mo) { at_pre((uptr)a, sizeof(T), 1, RA); T o = *a; at_load((uptr)a, mo); *a = o + v; at_store((uptr)a, mo, 1); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int mo) { at_pre((uptr)a, sizeof(T), 1, RA); T o = *a; at_load((uptr)a, mo); *a = o - v; at_store((uptr)a, mo, 1); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int mo) { at_pre((uptr)a, sizeof(T), 1, RA); T o = *a; at_load((uptr)a, mo); *a = o & v; at_store((uptr)a, mo, 1); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int mo) { at_pre((uptr)a, sizeof(T), 1, RA); T o = *a; at_load((uptr)a, mo); *a = o | v; at_store((uptr)a, mo, 1); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int mo) { at_pre((uptr)a, sizeof(T), 1, RA); T o = *a; at_load((uptr)a, mo); *a = o ^ v; at_store((uptr)a, mo, 1); return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int mo) { at_pre((uptr)a, sizeof(T), 1, RA); T o = *a; at_load((uptr)a, mo); *a = ~(o & v); at_store((uptr)a, mo, 1); return o; } \
  static int cas##bits(volatile T* a, T* e, T v, int mo, int fmo, uptr pc) { \
    at_pre((uptr)a, sizeof(T), 1, pc); \
    if (*a == *e) { at_load((uptr)a, mo); *a = v; at_store((uptr)a, mo, 1); return 1; } \
    at_load((uptr)a, fmo); *e = *a; return 0; \
  } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* e, T v, int mo, int fmo) { return cas##bits(a, e, v, mo, fmo, RA); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* e, T v, int mo, int fmo) { return cas##bits(a, e, v, mo, fmo, RA); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T e, T v, int mo, int fmo) { cas##bits(a, &e, v, mo, fmo, RA); return e; }
ATDEF(8, u8) ATDEF(16, u16) ATDEF(32, u32) ATDEF(64, u64)
void __tsan_atomic_thread_fence(int mo) {
  if (!active) return;
  sched_point("fence");
  if (is_acq(mo)) vc_join(cur->vc, fence_acq[cur->id]);
  if (is_rel(mo)) { vc_join(fence_rel[cur->id], cur->vc); tick(cur); }
}
void __tsan_atomic_signal_fence(int mo) { (void)mo; }
#endif

/* ---------- memory functions ---------- */
void* sim_memcpy(void* d, const void* s, size_t n) {
  if (d != s && (uptr)d < (uptr)s + n && (uptr)s < (uptr)d + n) sim_violation("overlap", "memcpy of %llu bytes between ranges that overlap", (unsigned long long)n);
  if (n) { acc_range((uptr)s, n, 0, RA); acc_range((uptr)d, n, 1, RA); }
  return memcpy(d, s, n);
}
void* sim_memmove(void* d, const void* s, size_t n) {
  if (n) { acc_range((uptr)s, n, 0, RA); acc_range((uptr)d, n, 1, RA); }
  return memmove(d, s, n);
}
void* sim_memset(void* d, int c, size_t n) {
  if (n) acc_range((uptr)d, n, 1, RA);
  return memset(d, c, n);
}
int sim_memcmp(const void* a, const void* b, size_t n) {
  if (n) { acc_range((uptr)a, n, 0, RA); acc_range((uptr)b, n, 0, RA); }
  return memcmp(a, b, n);
}
void sim_check_range(const void* a, size_t n, int write, uptr pc) { acc_range((uptr)a, n, write, pc); }
int sim_snprintf(char* b, size_t n, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vsnprintf(b, n, f, ap);
  va_end(ap);
  if (n && r >= 0) acc_range((uptr)b, (size_t)r + 1 < n ? (size_t)r + 1 : n, 1, RA);
  return r;
}
int sim_sprintf(char* b, const char* f, ...) {
  va_list ap;
  va_start(ap, f);
  int r = vsprintf(b, f, ap);
  va_end(ap);
  if (r >= 0) acc_range((uptr)b, (size_t)r + 1, 1, RA);
  return r;
}
void sim_exit(int c) { sim_violation("abnormal-exit", "exit(%d) was called", c); }
void sim_abort(void) { sim_violation("abnormal-exit", "abort was called"); }
static char last_command[400];
static u32 commands;
const char* sim_last_command(u32* count) { *count = commands; return last_command; }
int sim_system(const char* c) { commands++; snprintf(last_command, sizeof last_command, "%s", c); if (want_trace) sim_trace("system(%s)", c); sim_hash_bytes(c, strlen(c)); sched_point("system"); return 0; }

/* ---------- run ---------- */
static void on_signal(int sig, siginfo_t* si, void* ctx) {
  ucontext_t* u = ctx;
  if (!R) _exit(3);
  if (sig == SIGALRM) {
    if (R->status == ST_RUNNING) finish(ST_INCONCLUSIVE);
    _exit(0);
  }
  R->npcs = 1;
  R->pcs[0] = u->uc_mcontext.gregs[REG_RIP];
  if (sig == SIGPROF) {
    sim_violation("no-progress", "the run used more than its limit of processor time without finishing");
  }
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGABRT";
  char k[32];
  sprintf(k, "crash-%s", n);
  if (!active) snprintf(k, sizeof k, "crash-in-checker");
  uptr a = (uptr)si->si_addr;
  const char* w = sig != SIGSEGV ? "" : a < 65536 ? " (null pointer)" : (a - STK_BASE < STK_SIZE && (a - STK_BASE) % STK_ONE < 4096) ? " (stack overflow)" : "";
  sim_violation(k, "%s in thread %d%s", n, cur ? cur->id : -1, w);
}
static u8 tls_img[4096];
void sim_stack_chk_fail(void) { sim_violation("stack-write", "a function wrote outside of one of its arrays on the stack (thread %d)", cur ? cur->id : -1); }
void* tls_image(void) { return tls_img; }
static int phdr_cb(struct dl_phdr_info* i, size_t n, void* d) {
  (void)n;
  (void)d;
  if (i->dlpi_name && i->dlpi_name[0]) return 0; /* only the executable */
  for (int k = 0; k < i->dlpi_phnum; k++)
    if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
      tls_block = i->dlpi_tls_data;
      tls_size = i->dlpi_phdr[k].p_memsz;
      if (tls_size > sizeof tls_img) tls_size = sizeof tls_img;
      memcpy(tls_img, tls_block, tls_size);
    }
  return 0;
}
static void map_at(u64 base, u64 size) {
  void* p = mmap((void*)base, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void*)base) {
    fprintf(stderr, "simulator: cannot map arena at %llx\n", (unsigned long long)base);
    exit(2);
  }
}
void core_map_arenas(void) {
  g_lo = (uptr)&__data_start & ~7ull;
  g_size = ((uptr)&_end - g_lo + 7) & ~7ull;
  map_at(HEAP_BASE, HEAP_SIZE);
  map_at(ASH_BASE, HEAP_SIZE / 8);
  map_at(RSH_BASE, HEAP_SIZE * 4);
  map_at(RPC_BASE, HEAP_SIZE * 2);
  map_at(STK_BASE, STK_SIZE);
  map_at(SRSH_BASE, STK_SIZE * 4);
  map_at(SRPC_BASE, STK_SIZE * 2);
  map_at(GRSH_BASE, g_size * 4 + 4096);
  map_at(GRPC_BASE, g_size * 2 + 4096);
  map_at(BLK_BASE, sizeof(block) * (u64)MAX_BLOCKS);
  map_at(CS_BASE, (u64)CS_ONE * NF);
  for (int i = 0; i < NF; i++) mprotect((void*)(STK_BASE + STK_ONE * i), 4096, PROT_NONE);
  dl_iterate_phdr(phdr_cb, 0);
}
static void* scenario_main(void* a) {
  ((const sim_scenario_t*)a)->run();
  return 0;
}
extern void sim_file_end_check(void);
void core_run(const sim_scenario_t* s, u64 seed, u64 index, sim_result_t* out, const sim_logs_t* replay, int trace) {
  R = out;
  want_trace = trace;
  memset(R, 0, offsetof(sim_result_t, log_ops));
  R->trace_len = 0;
  u64 h = 0xcbf29ce484222325ull;
  for (const char* p = s->name; *p; p++) h = (h ^ (u8)*p) * 0x100000001b3ull;
  u64 x = seed * 0x9e3779b97f4a7c15ull ^ h;
  splitmix(&x);
  x ^= index * 0xd1342543de82ef95ull;
  for (int i = 0; i <= S_N; i++) prng[i] = splitmix(&x);
  ch_log[S_OPS] = R->log_ops;
  ch_log[S_FAULT] = R->log_fault;
  ch_log[S_SCHED] = R->log_sched;
  ch_max[S_OPS] = ch_max[S_FAULT] = LOG_MAX_OTHER;
  ch_max[S_SCHED] = LOG_MAX_SCHED;
  ch_replay = replay != 0;
  if (replay)
    for (int i = 0; i < S_N; i++) {
      ch_len[i] = replay->len[i];
      memcpy(ch_log[i], replay->log[i], sizeof(u32) * replay->len[i]);
    }
  strat.kind = rnd(S_N) % 6;
  strat.stay = (rnd(S_N) % 3) * 7;
  strat.gapkind = rnd(S_N) % 6;
  static const u32 sl[] = { 0, 1, 1, 4 };
  strat.sleeper = sl[rnd(S_N) % 4];
  strat.victim = rnd(S_N) % 4;
  strat.pct_changes = 1 + rnd(S_N) % 3;
  if (strat.kind == 3 && !replay) R->fired[F_THREAD_STALL]++;
  heap_top = HEAP_BASE + 4096;
  heap_fill_mode = 0;
  stack_t ss = { .ss_size = 65536 };
  ss.ss_sp = mmap(0, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  sigaltstack(&ss, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGPROF };
  for (u32 i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, 0);
  struct itimerval it = { { 0, 0 }, { 20, 0 } };
  setitimer(ITIMER_PROF, &it, 0);
  alarm(120);
  /* the stack guard value is random for each process otherwise. this function never returns */
  __asm__ volatile("movq %0, %%fs:0x28" : : "r"(0x5eed5eed5eed5e00ull));
  active = 1;
  fiber* f = fiber_new(scenario_main, (void*)s);
  cur = f;
  static void* d;
  (void)d;
  swtch(&base_sp, f->sp);
  /* the scenario returned */
  cur = &fibers[0];
  active = 0;
  sim_heap_check();
  sim_file_end_check();
  finish(ST_OK);
}
