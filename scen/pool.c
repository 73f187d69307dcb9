/* The thread pool and futures used directly (C03 C02 C05), and start-up and shutdown under faults (C06). */
#include "common.h"
#include <string.h>
#include <time.h>

/* ---------- tasks ---------- */
#define MAXT 400
typedef struct task {
  sph_thread_pool_task_t t;
  int id, producer;
  u32 input;    /* written before the task is queued, read by the task */
  u32 result;   /* written by the task, read after the pool has been finished */
  struct task* follow; /* queued by the task */
  int yields;
} task;
static sph_thread_pool_t* pool;
static task* tasks[MAXT];
static u32 ntasks;
static u32 executed[MAXT], exec_order[MAXT], nexec, running, queued_order[MAXT], nqueued, exec_after_end, pool_ended;
static u8 was_queued[MAXT];

NOINST static void rec_task_start(task* a) {
  if (a->id < 0 || a->id >= (int)ntasks || tasks[a->id] != a) sim_violation("wrong-task", "a task is run with other data than it was queued with");
  if (!was_queued[a->id]) sim_violation("wrong-task", "task %d runs but was not queued", a->id);
  if (executed[a->id]++) sim_violation("task-repeated", "task %d runs %u times", a->id, executed[a->id]);
  if (pool_ended) sim_violation("work-left", "task %d starts after the pool was finished", a->id);
  exec_order[nexec++] = a->id;
  running++;
  sim_trace("task %d starts", a->id);
}
NOINST static void rec_task_end(task* a) {
  sim_trace("task %d ends", a->id);
  running--;
}
NOINST static void rec_queue(task* a) {
  was_queued[a->id] = 1;
  queued_order[nqueued++] = a->id;
}
NOINST static u32 exec_count(void) { return nexec; }
static u32 gates_reached;
NOINST static void rec_gate(void) { gates_reached++; }
NOINST static u32 gate_count(void) { return gates_reached; }
static void run_task(sph_thread_pool_task_t* t) {
  task* a = (task*)((char*)t - offsetof(task, t));
  int i;
  rec_task_start(a);
  for (i = 0; i < a->yields; i += 1) sim_yield();
  a->result = a->input * 3 + 1;
  if (a->follow) {
    a->follow->input = a->input + 1;
    rec_queue(a->follow);
    sph_thread_pool_enqueue(pool, &a->follow->t);
  }
  rec_task_end(a);
}
static task* new_task(int producer) {
  task* a = harness_malloc(sizeof *a);
  memset(a, 0, sizeof *a);
  a->id = ntasks;
  tasks[ntasks++] = a;
  a->t.f = run_task;
  a->producer = producer;
  return a;
}
typedef struct {
  int id;
  u32 n;
  task* list[MAXT];
} producer_t;
static void* producer(void* x) {
  producer_t* p = x;
  u32 i;
  for (i = 0; i < p->n; i += 1) {
    p->list[i]->input = 100 * p->id + i;
    rec_queue(p->list[i]);
    sph_thread_pool_enqueue(pool, &p->list[i]->t);
  }
  return 0;
}
NOINST static void check_order(u32 workers, u32 nprod) {
  if (workers != 1) return;
  for (u32 p = 0; p < nprod; p++) {
    int last = -1;
    for (u32 i = 0; i < nexec; i++) {
      if (tasks[exec_order[i]]->producer != (int)p) continue;
      if (exec_order[i] < (u32)last && last >= 0) sim_violation("task-order", "a pool with one worker runs task %u after task %d which was queued later", exec_order[i], last);
      last = exec_order[i];
    }
  }
}
static void pool_any(void) {
  u32 workers = pick_workers(), nprod = 1 + (OP(3) == 2 ? 1 + OP(2) : 0), i, k, n, wait_all, mode, ends;
  producer_t prod[3];
  pthread_t th[3];
  sim_faults_setup(FM_WAKE | FM_SLEEP | FM_HEAP);
  u64 mark = sim_heap_mark();
  ntasks = nexec = running = nqueued = pool_ended = 0;
  memset(executed, 0, sizeof executed);
  memset(was_queued, 0, sizeof was_queued);
  pool = harness_malloc(sizeof *pool);
  if (sph_thread_pool_new(workers, pool)) sim_violation("unexpected-failure", "a pool of %u threads can not be created", workers);
  if (sim_live_threads() != (int)workers) sim_violation("threads", "the pool has %d threads instead of %u", sim_live_threads(), workers);
  memset(prod, 0, sizeof prod);
  n = 0;
  for (k = 0; k < nprod; k += 1) {
    prod[k].id = k;
    prod[k].n = OP(60) == 59 ? OPR(12, 120) : OPR(1, nprod == 1 ? 12 : 6); /* rarely many */
    for (i = 0; i < prod[k].n; i += 1) {
      prod[k].list[i] = new_task(k);
      prod[k].list[i]->yields = OP(4) == 3 ? OP(4) : 0;
    }
  }
  wait_all = OP(2);
  mode = OP(4); /* 0,1: finish. 2: no wait, then finish. 3: discard */
  if (wait_all)
    for (i = 0, n = ntasks; i < n; i += 1)
      if (OP(5) == 4 && ntasks < MAXT) tasks[i]->follow = new_task(9);
  ends = OP(6) == 5 && workers > 1 ? OPR(1, workers - 1) : 0;
  sim_desc("%u workers, %u producers, %u tasks, %s, shutdown %s, %u threads ended by tasks", workers, nprod, ntasks, wait_all ? "waits for all" : "does not wait", mode < 2 ? "waiting" : mode == 2 ? "not waiting first" : "discarding", ends);
  if (ntasks > workers) PROBE(more_tasks_than_workers);
  if (nprod > 1) PROBE(pool_two_producers);
  sim_faults_on();
  for (k = 1; k < nprod; k += 1) pthread_create(&th[k], 0, producer, &prod[k]);
  for (i = 0; i < ends; i += 1) {
    sph_thread_pool_task_t* t = harness_malloc(sizeof *t);
    t->f = sph_thread_finish;
    sph_thread_pool_enqueue(pool, t);
  }
  producer(&prod[0]);
  for (k = 1; k < nprod; k += 1) pthread_join(th[k], 0);
  if (wait_all) {
    const struct timespec ms = { 0, 1000000 };
    while (exec_count() < ntasks) nanosleep(&ms, 0);
  }
  if (mode == 2) {
    PROBE(pool_finish_nowait);
    sph_thread_pool_finish(pool, 1, 0);
  }
  if (mode == 3) PROBE(pool_discard);
  sph_thread_pool_finish(pool, 0, mode == 3);
  pool_ended = 1;
  if (running) sim_violation("work-left", "%u tasks are running after the pool was finished", running);
  if (sim_live_threads()) sim_violation("threads", "%d threads are left after the pool was finished", sim_live_threads());
  for (i = 0; i < ntasks; i += 1) {
    if (!executed[i]) {
      if (mode != 3 || wait_all) sim_violation("task-lost", "task %u was queued but never run", i);
    } else if (tasks[i]->result != tasks[i]->input * 3 + 1) sim_violation("wrong-result", "the result of task %u is not visible after the pool was finished", i);
  }
  check_order(workers, nprod);
  if (ends && mode != 3)
    ; /* the tasks that end threads free themselves */
  for (i = 0; i < ntasks; i += 1) sim_free(tasks[i]);
  sim_free(pool);
  if (!(ends && mode == 3)) sim_leak_check(mark, "after the pool was finished");
  if (sim_switches() > 4) sim_nontrivial();
}

/* all workers are busy when the pool is finished, so that it is certain which tasks still wait in the queue */
static pthread_mutex_t gate;
static void run_gate(sph_thread_pool_task_t* t) {
  task* a = (task*)((char*)t - offsetof(task, t));
  rec_task_start(a);
  rec_gate();
  pthread_mutex_lock(&gate);
  pthread_mutex_unlock(&gate);
  a->result = a->input * 3 + 1;
  rec_task_end(a);
}
static void pool_gated(void) {
  const struct timespec ms = { 0, 1000000 };
  u32 workers = OPR(1, 4), more = OP(60) == 59 ? OPR(8, 300) : OPR(1, 8), i, discard = OP(3) != 2, before;
  u64 mark;
  sim_faults_setup(FM_WAKE | FM_SLEEP | FM_HEAP);
  pthread_mutex_init(&gate, 0);
  mark = sim_heap_mark();
  ntasks = nexec = running = nqueued = pool_ended = gates_reached = 0;
  memset(executed, 0, sizeof executed);
  memset(was_queued, 0, sizeof was_queued);
  pool = harness_malloc(sizeof *pool);
  if (sph_thread_pool_new(workers, pool)) sim_violation("unexpected-failure", "a pool of %u threads can not be created", workers);
  sim_desc("%u workers that are all busy, %u tasks wait, then shutdown %s", workers, more, discard ? "discarding" : "not discarding");
  pthread_mutex_lock(&gate);
  for (i = 0; i < workers; i += 1) new_task(9)->t.f = run_gate;
  for (i = 0; i < more; i += 1) new_task(9);
  for (i = 0; i < ntasks; i += 1) tasks[i]->input = i;
  sim_faults_on();
  for (i = 0; i < workers; i += 1) {
    rec_queue(tasks[i]);
    sph_thread_pool_enqueue(pool, &tasks[i]->t);
  }
  while (gate_count() < workers) nanosleep(&ms, 0);
  before = OP(2) ? OP(more + 1) : more; /* the rest is added after the shutdown was announced and is completed */
  for (i = 0; i < before; i += 1) {
    rec_queue(tasks[workers + i]);
    sph_thread_pool_enqueue(pool, &tasks[workers + i]->t);
  }
  sph_thread_pool_finish(pool, 1, discard);
  PROBE(pool_finish_nowait);
  if (discard) PROBE(pool_discard);
  for (; i < more; i += 1) {
    rec_queue(tasks[workers + i]);
    sph_thread_pool_enqueue(pool, &tasks[workers + i]->t);
  }
  pthread_mutex_unlock(&gate);
  sph_thread_pool_finish(pool, 0, 0);
  pool_ended = 1;
  if (running) sim_violation("work-left", "%u tasks are running after the pool was finished", running);
  if (sim_live_threads()) sim_violation("threads", "%d threads are left after the pool was finished", sim_live_threads());
  for (i = 0; i < ntasks; i += 1) {
    int dropped = discard && i >= workers && i < workers + before;
    if (dropped && executed[i]) sim_violation("work-left", "task %u runs although the queue was discarded", i);
    if (!dropped && !executed[i]) sim_violation("task-lost", "task %u was queued but never run", i);
    if (executed[i] && tasks[i]->result != tasks[i]->input * 3 + 1) sim_violation("wrong-result", "the result of task %u is not visible after the pool was finished", i);
    sim_free(tasks[i]);
  }
  sim_free(pool);
  sim_leak_check(mark, "after the pool was finished");
  pthread_mutex_destroy(&gate);
  if (sim_switches() > 4) sim_nontrivial();
}
void scen_pool_tasks(void) {
  if (OP(6) == 5) pool_gated();
  else pool_any();
}

/* ---------- futures ---------- */
#define MAXF 40
typedef struct fut {
  sph_future_t* f;
  int id, nsub, depth, own; /* own: the function frees its children after touching them */
  u32 in, out;
  struct fut* sub[4];
  struct fut* shared; /* a future of the main thread that this one also waits for */
  int yields, touch_order, twice;
} fut;
static fut futs[MAXF];
static u32 nfuts, fut_runs[MAXF], fut_done[MAXF];
NOINST static void rec_fut_start(fut* a) {
  sim_trace("future %d starts", a->id);
  if (fut_runs[a->id]++) sim_violation("task-repeated", "the function of future %d is called %u times", a->id, fut_runs[a->id]);
}
NOINST static void rec_fut_end(fut* a) {
  sim_trace("future %d ends", a->id);
  fut_done[a->id] = 1;
}
NOINST static void rec_fut_touched(fut* a, void* r) {
  sim_trace("future %d touched", a->id);
  if (!fut_done[a->id]) sim_violation("early-result", "waiting for future %d returned before its function finished", a->id);
  if (r != &a->out) sim_violation("wrong-result", "waiting for future %d returned another value than its function", a->id);
}
static void* run_fut(void* x);
static void start_fut(fut* a, u32 in) {
  a->in = in;
  a->f = harness_malloc(sizeof(sph_future_t));
  sph_future_new(run_fut, a, a->f);
}
static u32 touch_fut(fut* a) {
  void* r = sph_future_touch(a->f);
  rec_fut_touched(a, r);
  return *(u32*)r;
}
NOINST static u32 fut_expect(const fut* a, u32 in) {
  u32 s = in * 5 + a->id;
  for (int i = 0; i < a->nsub; i++) s += fut_expect(a->sub[i], in + i);
  if (a->shared) s += fut_expect(a->shared, a->shared->in);
  return s;
}
static void* run_fut(void* x) {
  fut* a = x;
  u32 s;
  int i, k;
  rec_fut_start(a);
  s = a->in * 5 + a->id;
  for (i = 0; i < a->nsub; i += 1) start_fut(a->sub[i], a->in + i);
  for (i = 0; i < a->yields; i += 1) sim_yield();
  for (i = 0; i < a->nsub; i += 1) {
    k = a->touch_order ? a->nsub - 1 - i : i;
    s += touch_fut(a->sub[k]);
    if (a->twice) touch_fut(a->sub[k]);
    sim_free(a->sub[k]->f); /* nothing may use it any more */
  }
  if (a->shared) s += touch_fut(a->shared);
  a->out = s;
  rec_fut_end(a);
  return &a->out;
}
static int fut_budget;
NOINST static fut* gen_fut(int depth) {
  fut* a = &futs[nfuts];
  memset(a, 0, sizeof *a);
  a->id = nfuts++;
  fut_budget--;
  a->yields = OP(4) == 3 ? OP(4) : 0;
  a->touch_order = OP(2);
  a->twice = OP(4) == 3;
  int n = depth < 4 ? OP(4) : 0;
  for (int i = 0; i < n && fut_budget > 0; i++) a->sub[a->nsub++] = gen_fut(depth + 1);
  return a;
}
void scen_futures(void) {
  u32 i, rounds, r, workers, n, base = 0;
  sim_faults_setup(FM_WAKE | FM_SLEEP | FM_HEAP);
  rounds = 1 + (OP(4) == 3);
  u64 mark = sim_heap_mark();
  nfuts = 0;
  memset(fut_runs, 0, sizeof fut_runs);
  memset(fut_done, 0, sizeof fut_done);
  fut_budget = 2 + OP(MAXF - 10);
  for (r = 0; r < rounds; r += 1) {
    fut* top[6];
    workers = pick_workers();
    n = OPR(1, 6);
    base = nfuts;
    for (i = 0; i < n && (fut_budget > 0 || i == 0) && nfuts < MAXF - 6; i += 1) {
      top[i] = gen_fut(0);
      if (i && OP(4) == 3 && !top[i - 1]->shared) top[i]->shared = top[OP(i)];
    }
    n = i;
    sim_desc("%sround %u: %u workers, %u futures of which %u at the top", r ? "; " : "", r, workers, nfuts - base, n);
    for (i = 0; i < n; i += 1)
      if (top[i]->shared) top[i]->shared = top[i]->shared->shared ? 0 : top[i]->shared;
    if (sph_future_init(workers)) sim_violation("unexpected-failure", "futures can not be initialised");
    if (OP(4) == 3 && sph_future_init(workers + 1)) sim_violation("unexpected-failure", "a second initialisation of futures fails");
    if (sim_live_threads() != (int)workers) sim_violation("threads", "%d threads run for %u workers", sim_live_threads(), workers);
    if (nfuts - base > workers) PROBE(more_tasks_than_workers);
    u32 hold = OP(6) == 5 ? 1 + OP(workers + 1) : 0, hold_at = OP(n + 1);
    if (hold) sim_desc(", %u others are held back", hold);
    sim_faults_on();
    for (i = 0; i < n; i += 1) {
      if (hold && i == hold_at) hold_begin(hold);
      start_fut(top[i], 7 * i);
    }
    if (hold && hold_at == n) hold_begin(hold);
    u32 order = OP(2), all = OP(3) != 2;
    if (all)
      for (i = 0; i < n; i += 1) {
        u32 k = order ? n - 1 - i : i, v = touch_fut(top[k]);
        if (v != fut_expect(top[k], 7 * k)) sim_violation("wrong-result", "future %d has the value %u instead of %u", top[k]->id, v, fut_expect(top[k], 7 * k));
      }
    if (hold) hold_end();
    sph_future_deinit(); /* completes what is queued */
    if (OP(4) == 3) sph_future_deinit();
    sim_faults_off();
    for (i = base; i < nfuts; i += 1)
      if (!fut_done[i] || fut_runs[i] != 1) sim_violation("task-lost", "future %u was run %u times", i, fut_runs[i]);
    for (i = 0; i < n; i += 1) {
      if (top[i]->out != fut_expect(top[i], 7 * i)) sim_violation("wrong-result", "future %d has a wrong value after shutdown", top[i]->id);
      sim_free(top[i]->f);
    }
    if (sim_live_threads()) sim_violation("threads", "%d threads are left after futures were deinitialised", sim_live_threads());
    if (r) PROBE(reinit);
  }
  sim_leak_check(mark, "after futures were deinitialised");
  if (sim_switches() > 4) sim_nontrivial();
}

/* ---------- start-up and shutdown ---------- */
static void* square(void* x) {
  u32* a = x;
  *a = *a * *a;
  return a;
}
NOINST static void check_sine(void) {
  if (!sp_sine_table || !sp_sine_table_lfo) sim_violation("bad-init", "the sine tables are missing after sp_initialize");
  for (u32 i = 0; i < sp_rate; i++)
    if (fabs(sp_sine_table[i] - sin(i * (2 * M_PI / sp_rate))) > 1e-9) sim_violation("bad-init", "the sine table has the value %g at %u", sp_sine_table[i], i);
  for (u32 i = 0; i < sp_rate * sp_sine_lfo_factor; i += 7)
    if (fabs(sp_sine_table_lfo[i] - sin(i * (2 * M_PI / (sp_rate * sp_sine_lfo_factor)))) > 1e-9) sim_violation("bad-init", "the slow sine table has the value %g at %u", sp_sine_table_lfo[i], i);
}
/* init and deinit sequences, failing at any allocation or thread */
void scen_lifecycle(void) {
  static const u32 rates[] = { 50, 100, 8 };
  u32 rounds = OPR(1, 5), r, i, k;
  u64 mark = sim_heap_mark();
  u32 first_random = 0;
  int have_random = 0, many = 0;
  sim_faults_setup(FM_WAKE | FM_SLEEP | FM_HEAP | FM_THREAD | FM_ALLOC);
  if (OP(3) == 2) sim_alloc_fail_at(OPR(1, 4));
  for (r = 0; r < rounds; r += 1) {
    u32 workers = OP(4) == 3 ? 0 : pick_workers(), channels = OPR(1, CHL), rate = draw_rate(rates[OP(3)]);
    if (OP(40) == 39) workers = 129 + OP(127);
    else if (!many && OP(50) == 49) {
      workers = OP(2) ? 128 : OPR(60, 128);
      many = 1;
    }
    int clean = OP(3) == 0;
    if (!clean) sim_faults_on();
    u32 before_alloc = sim_alloc_faults_fired();
    int tf0 = sim_thread_faults_fired();
    status_t s = sp_initialize(workers, channels, rate);
    sim_faults_off();
    int faulted = (u32)sim_alloc_faults_fired() != before_alloc || sim_thread_faults_fired() != tf0;
    sim_desc("%s%u workers: %s%s", r ? "; " : "", workers, s.id ? "fails" : "works", faulted ? " (fault)" : "");
    if (r) PROBE(reinit);
    if (s.id) {
      PROBE(init_failed);
      if (!faulted && workers <= 128) sim_violation("unexpected-failure", "sp_initialize failed with %d although nothing failed (round %u)", s.id, r);
      if (OP(2)) sp_deinitialize();
      if (sim_live_threads()) sim_violation("threads", "%d threads are left after sp_initialize failed", sim_live_threads());
      sim_leak_check(mark, "after sp_initialize failed");
      if (sim_switches() > 2) sim_nontrivial();
      continue;
    }
    PROBE(init_ok);
    if (workers > 128) sim_violation("bad-init", "sp_initialize reports success for %u workers, more than can be created", workers);
    if (sim_live_threads() != (int)workers) sim_violation("threads", "%d threads run after sp_initialize for %u workers", sim_live_threads(), workers);
    if (sp_rate != rate || sp_channel_count != channels || sp_cpu_count != workers) sim_violation("bad-init", "sp_initialize has not set its parameters");
    if (OP(4) == 0 || clean) check_sine();
    k = sp_time_random();
    if (have_random && k != first_random) sim_violation("bad-init", "the random generator starts with %u instead of %u", k, first_random);
    first_random = k;
    have_random = 1;
    for (i = OP(5); i; i -= 1) sp_time_random();
    if (workers) {
      u32 v[8], n = OPR(1, 8);
      sph_future_t f[8];
      for (i = 0; i < n; i += 1) {
        v[i] = i + 3;
        sph_future_new(square, &v[i], &f[i]);
      }
      int touch = OP(4) != 3;
      for (i = 0; touch && i < n; i += 1)
        if (*(u32*)sph_future_touch(&f[i]) != (i + 3) * (i + 3)) sim_violation("wrong-result", "a future has a wrong result after initialisation %u", r);
      sp_deinitialize();
      for (i = 0; i < n; i += 1)
        if (v[i] != (i + 3) * (i + 3)) sim_violation("task-lost", "a future has not been completed by sp_deinitialize");
    } else sp_deinitialize();
    if (OP(3) == 2) sp_deinitialize();
    if (sim_live_threads()) sim_violation("threads", "%d threads are left after sp_deinitialize", sim_live_threads());
    sim_leak_check(mark, "after sp_deinitialize");
  }
  sim_heap_check();
  if (rounds > 1) sim_nontrivial();
}
