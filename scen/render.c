/* Rendering event trees: sequentially and with worker threads, in blocks, with failures (C01 C02 C04 C05 C07 C08 C13). */
#include "common.h"
#include <string.h>

enum { RF_FRESH = 1, RF_ALLOC = 2, RF_REORDER = 4 };
typedef struct {
  treeopt o;
  int parallel;       /* 0: sp_seq, 1: sp_seq_parallel, 2: draw */
  int workers;        /* 0: no pool, -1 draw */
  int rounds;
  int partial;        /* may start after zero and end before the end */
  u32 fault_mask;
  int alloc_faults;   /* allocation failures while rendering */
  int lifecycle;      /* check after each block what must have been freed */
  int abandon;        /* may stop in the middle and free the list */
  int one_cut;        /* the model renders noise at once */
  double tolerance;
} rcfg;
static sp_sample_t* outmem[CHL];
static double *want[CHL], *pattern[CHL];
static u32 outn;

NOINST static void check_output(u32 lo, u32 cut, const char* what, int channels, double tol) {
  /* [0, cut - lo) is rendered, the rest must be untouched */
  for (int c = 0; c < channels; c++) {
    compare("wrong-sound", outmem[c], want[c], cut - lo, tol, what, c);
    for (u32 i = cut - lo; i < outn; i++)
      if (outmem[c][i] != pattern[c][i]) sim_violation("wrote-outside", "%s: sample %u of channel %d is outside of the rendered range %u..%u but changed from %g to %g", what, i, c, lo, cut, pattern[c][i], outmem[c][i]);
  }
}
NOINST static void check_block_lifecycle(node* r, u32 start, u32 rendered, int failed) {
  for (int i = 0; i < r->nchild; i++) {
    node* n = r->child[i];
    if (n->kind != N_LEAF || !n->has_free || n->created != 1) continue;
    if (n->start + n->dur <= start && !n->freed && !failed) sim_violation("lifecycle", "event %d ended at %u and the block from %u on was rendered, but it is not freed", n->id, n->start + n->dur, start);
    if (n->start + n->dur > rendered && n->freed && !failed) sim_violation("lifecycle", "event %d is freed after rendering until %u but ends at %u", n->id, rendered, n->start + n->dur);
  }
}
NOINST static void check_failure(status_t s) {
  check_status_shape(s, "rendering");
  if (status_is_memory(s) && (sim_alloc_faults_fired() || any_callback_memory_failure)) return;
  if (!strcmp((char*)s.group, TEST_GROUP)) {
    for (int i = 0; i < nfail_reported; i++)
      if (1000 + fail_reported[i] == s.id) return;
    sim_violation("wrong-status", "rendering returned failure %d that no event reported", s.id - 1000);
  }
  if (!strcmp((char*)s.group, sp_s_group_sp) && s.id == sp_s_id_invalid_argument)
    for (int i = 0; i < nfail_reported; i++)
      if (nodes[fail_reported[i]].kind == N_NOISE) return;
  sim_violation("wrong-status", "rendering returned status %d of group %s. %d events reported a failure, %d allocations failed", s.id, (char*)s.group, nfail_reported, sim_alloc_faults_fired());
}
NOINST static void hash_output(int channels) {
  for (int c = 0; c < channels; c++) sim_hash_bytes(outmem[c], sizeof(double) * outn);
}
NOINST static int count_kind(const node* n, int k) {
  int x = n->kind == k && n->parent;
  for (int i = 0; i < n->nchild; i++) x += count_kind(n->child[i], k);
  return x;
}
static u32 cuts[600];
/* addresses that the events themselves have registered while they were rendered */
NOINST static u64 registered(void) {
  u64 r = 0;
  for (int i = 0; i < nnodes; i++) r += nodes[i].handler_added - nodes[i].handler_calls;
  return r;
}
/* an event starts in the range */
NOINST static int starts_in(const node* n, u32 base, u32 a, u32 z) {
  for (int i = 0; i < n->nchild; i++) {
    u32 t = n->kind == N_MAP || n->kind == N_MAP_ISO ? base : base + n->child[i]->start;
    if ((t >= a && t < z) || starts_in(n->child[i], t, a, z)) return 1;
  }
  return 0;
}

static int mixed; /* blocks in sequence and in parallel take turns */
/* one complete render of a new list. returns 1 if it failed */
static int render_once(node* root, const rcfg* c, int par, int channels, u32 lo, u32 hi, u32 ncuts, int fresh, int faulty) {
  sp_event_list_t* list;
  sp_block_t whole, b;
  status_t s;
  u32 i, ch, n, abandon_at, nsteady = 0, growth = 0;
  u64 live;
  int failed = 0;
  tree_reset_history();
  sim_faults_off();
  s = build_list(root, &list);
  if (s.id) {
    /* events without end are prepared when they are added */
    check_failure(s);
    if (list) sim_violation("lifecycle", "the event list is not empty after building it failed");
    check_histories(root, lo, hi, 0);
    return 1;
  }
  whole.channel_count = channels;
  whole.size = outn;
  for (ch = 0; ch < (u32)channels; ch += 1) {
    whole.samples[ch] = outmem[ch];
    memcpy(outmem[ch], pattern[ch], sizeof(double) * outn);
    memcpy(want[ch], pattern[ch], sizeof(double) * outn);
  }
  if (tree_has(root, N_NOISE)) {
    u32 one[2] = { lo, hi };
    if (c->one_cut) model_prepare_noise(root, lo, hi, one, 2);
    else model_prepare_noise(root, lo, hi, cuts, ncuts);
    tree_reset_history_noise(root);
  }
  model_add(root, lo, hi, want, channels, cuts, ncuts);
  abandon_at = c->abandon && OP(4) == 3 ? OP(ncuts) : ncuts;
  if (abandon_at < ncuts) PROBE(render_abandoned);
  if (faulty) sim_faults_on();
  for (i = 0; i + 1 < ncuts && i < abandon_at; i += 1) {
    u32 a = cuts[i], z = cuts[i + 1];
    b = sp_block_with_offset(whole, a - lo);
    b.size = z - a;
    empty_range = a == z;
    if (mixed) par = OP(2);
    int steady = i && z > a && !starts_in(root, 0, a, z);
    live = sim_heap_live() - registered();
    sim_trace("render %u..%u %s", a, z, par ? "in parallel" : "in sequence");
    if (fresh && z > a) {
      /* a block of its own */
      sp_sample_t* tmp[CHL];
      for (ch = 0; ch < (u32)channels; ch += 1) {
        tmp[ch] = harness_malloc(sizeof(double) * (z - a));
        memcpy(tmp[ch], b.samples[ch], sizeof(double) * (z - a));
      }
      sp_block_t f = b;
      for (ch = 0; ch < (u32)channels; ch += 1) f.samples[ch] = tmp[ch];
      s = par ? sp_seq_parallel(a, z, f, &list) : sp_seq(a, z, f, &list);
      for (ch = 0; ch < (u32)channels; ch += 1) {
        memcpy(b.samples[ch], tmp[ch], sizeof(double) * (z - a));
        sim_free(tmp[ch]);
      }
    } else {
      s = par ? sp_seq_parallel(a, z, b, &list) : sp_seq(a, z, b, &list);
    }
    empty_range = 1;
    check_nothing_running("after rendering returned");
    if (s.id) {
      failed = 1;
      sim_faults_off();
      check_failure(s);
      if (list) sim_violation("lifecycle", "the event list is not empty after rendering failed");
      check_block_lifecycle(root, a, z, 1);
      break;
    }
    if (nfail_reported) sim_violation("failure-lost", "event %d failed but rendering returned success", fail_reported[0]);
    check_output(lo, z, par ? "parallel rendering" : "sequential rendering", channels, c->tolerance);
    if (c->lifecycle) check_block_lifecycle(root, a, z, 0);
    if (steady && !c->alloc_faults) {
      nsteady += 1;
      if (sim_heap_live() - registered() > live) growth += 1;
      if (nsteady == 8) PROBE(steady_blocks);
      if (growth > 4) sim_violation("accumulates", "memory is allocated and kept with each rendered block, although no event begins");
    }
  }
  sim_faults_off();
  n = sim_live_threads();
  (void)n;
  sp_event_list_free(&list);
  check_histories(root, lo, hi, !failed && abandon_at >= ncuts);
  hash_output(channels);
  return failed;
}
NOINST static u32 reach(const node* n) { /* also of what is cut off by a shorter group */
  u32 r = n->dur;
  for (int i = 0; i < n->nchild; i++) {
    u32 c = reach(n->child[i]);
    r = c > r ? c : r;
  }
  return n->start + r;
}
/* move an event to a later time, or let it begin early and move only what is in it */
NOINST static void later(node* n, u32 base) {
  int group = n->kind == N_GROUP || n->kind == N_GROUP_PAR || n->kind == N_LAZY || n->kind == N_LAZY_PAR;
  for (int i = 0; group && i < n->nchild; i++) group = !n->child[i]->append && !n->child[i]->eager; /* appended: times follow from what is before */
  if (OP(4) == 3 && !n->eager && (group || n->kind == N_LEAF)) {
    n->dur += base;
    for (int i = 0; group && i < n->nchild; i++) later(n->child[i], base);
  } else n->start += base;
}
/* events that go on for very long after what is rendered */
NOINST static void last_longer(node* n, u32 more) {
  int group = n->kind == N_GROUP || n->kind == N_GROUP_PAR || n->kind == N_LAZY || n->kind == N_LAZY_PAR;
  for (int i = 0; group && i < n->nchild; i++) group = !n->child[i]->append && !n->child[i]->eager;
  if ((group || n->kind == N_LEAF) && !n->eager && !n->append && OP(3)) {
    n->dur += more;
    for (int i = 0; group && i < n->nchild; i++) last_longer(n->child[i], more);
  }
}
static void run_render(const rcfg* c) {
  u32 ch, i, lo, hi, ncuts, end;
  int channels = 1 + OP(CHL), workers, par, failed, r, fresh;
  static const u32 rates[] = { 50, 100 };
  workers = c->workers < 0 ? (int)pick_workers() : c->workers;
  sim_faults_setup(c->fault_mask | (c->alloc_faults ? FM_ALLOC : 0));
  sim_faults_off();
  treeopt o = c->o;
  lib_init(workers, CHL, draw_rate(rates[OP(2)]));
  node* root = gen_tree(&o);
  if (tree_has(root, N_WAVE) || tree_has(root, N_NOISE)) channels = CHL;
  /* everything at a later time. events that begin before are longer instead */
  u32 base = 0;
  if (OP(8) == 7) {
    static const u32 bases[] = { 200, 1000, 65530, 65536, (1u << 24) - 5, (1u << 24) + 1, 0x7fffffffu - 20, 0x80000000u, 0xffffffffu };
    base = bases[OP(9)];
    if (base == 0xffffffffu) base -= reach(root) + 60;
    for (i = 0; i < (u32)root->nchild; i += 1) later(root->child[i], base);
    PROBE(late_times);
  }
  end = tree_end(root) - base;
  par = c->parallel == 2 ? (int)OP(2) : c->parallel;
  lo = c->partial && OP(3) == 2 ? OP(end) : 0;
  hi = c->partial && OP(3) == 2 ? lo + 1 + OP(end - lo) : end + (OP(3) == 2 ? OP(20) : 0);
  if (c->partial && !base && OP(10) == 9) {
    static const u32 more[] = { 65536, 1u << 24, 0x7fffffffu, 0x80000000u, 0xffffffffu };
    u32 m = more[OP(5)];
    if (m == 0xffffffffu) m -= reach(root) + 60;
    hi = hi > end ? end : hi;
    for (i = 0; i < (u32)root->nchild; i += 1) last_longer(root->child[i], m);
    PROBE(long_events);
  }
  lo += base;
  hi += base;
  ncuts = gen_cuts(lo, hi, cuts, 600);
  fresh = OP(2);
  outn = hi - lo + OP(8);
  sim_desc("%d workers, %d channels, %s, range %u..%u in %u blocks, ", workers, channels, par ? "parallel" : "sequential", lo, hi, ncuts - 1);
  describe_tree(root);
  if (par) PROBE(parallel_render);
  if (count_kind(root, N_GROUP_PAR) + count_kind(root, N_LAZY_PAR) && par) PROBE(nested_parallel);
  if (count_kind(root, N_LAZY) + count_kind(root, N_LAZY_PAR)) PROBE(lazy_group);
  if (tree_has(root, N_MAP)) PROBE(map_event);
  if (tree_has(root, N_MAP_ISO)) PROBE(map_isolated);
  if (tree_has(root, N_WAVE)) PROBE(wave_event);
  if (tree_has(root, N_NOISE)) PROBE(noise_event);
  if (par && root->nchild > workers) PROBE(more_tasks_than_workers);
  for (ch = 0; ch < (u32)channels; ch += 1) {
    outmem[ch] = harness_malloc(sizeof(double) * outn);
    want[ch] = out_alloc(outn);
    pattern[ch] = out_alloc(outn);
    fill_pattern(pattern[ch], outn, ch + 1);
  }
  /* other work in the pool that ends only after rendering */
  u32 hold = workers && par && OP(10) == 9 ? 1 + OP(workers + 1) : 0;
  if (hold) {
    sim_desc(", %u other futures are held back", hold);
    hold_begin(hold);
  }
  mixed = par && OP(8) == 7;
  if (mixed) PROBE(mixed_modes);
  for (r = 0; r < c->rounds; r += 1) {
    failed = render_once(root, c, par, channels, lo, hi, ncuts, fresh, 1);
    if (failed) {
      /* the library must still work: the same events without failures */
      PROBE(render_after_failure);
      int k;
      int fp[MAXN], fa[MAXN];
      for (k = 0; k < nnodes; k += 1) {
        fp[k] = nodes[k].fail_prepare;
        fa[k] = nodes[k].fail_at;
        nodes[k].fail_prepare = 0;
        nodes[k].fail_at = -1;
      }
      if (render_once(root, c, par, channels, lo, hi, ncuts, fresh, 0)) sim_violation("unexpected-failure", "rendering fails after an earlier failure although no event failed");
      for (k = 0; k < nnodes; k += 1) {
        nodes[k].fail_prepare = fp[k];
        nodes[k].fail_at = fa[k];
      }
    }
  }
  if (hold) hold_end();
  for (ch = 0; ch < (u32)channels; ch += 1) sim_free(outmem[ch]);
  if (par ? sim_switches() > 4 : ncuts > 2) sim_nontrivial();
  lib_end("after rendering");
  (void)i;
}
static rcfg base_cfg(void) {
  rcfg c = { .o = treeopt_all(), .parallel = 1, .workers = -1, .rounds = 1, .partial = 1, .fault_mask = FM_WAKE | FM_SLEEP | FM_HEAP, .lifecycle = 1 };
  return c;
}
static void incomplete_noise(rcfg* c) {
  if (OP(5) != 4) return;
  c->o.noise = 1;
  c->o.max_dur = 20;
  c->o.max_nodes = 5;
  c->tolerance = 1e-9;
}
/* few long events in blocks of many thousand samples */
typedef struct {
  u32 id, next, start, dur;
} longleaf;
NOINST static double long_value(u32 i, u32 id) { return (int)((i * (2 * id + 3) + id * 5 + (i >> 9) * 3) % 31) / 16.0 - 1; }
static longleaf longs[4];
NOINST static void long_write(u32 start, u32 end, sp_block_t out, const longleaf* l) {
  for (u32 c = 0; c < out.channel_count; c += 1)
    for (u32 i = start; i < end; i += 1) out.samples[c][i - start] += long_value(i, l->id + c);
}
static status_t long_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  longleaf* l = e->config;
  if (start != l->next || end > l->dur || start >= end) sim_violation("gap", "long event %u is asked for %u..%u after %u", l->id, start, end, l->next);
  l->next = end;
  long_write(start, end, out, l);
  status_return;
}
NOINST static void long_double(u32 n, sp_block_t in, sp_block_t out) {
  for (u32 c = 0; c < in.channel_count; c += 1)
    for (u32 i = 0; i < n; i += 1) out.samples[c][i] += 2 * in.samples[c][i];
}
static status_t long_map(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* state) {
  status_declare;
  (void)state;
  long_double(end - start, in, out);
  status_return;
}
NOINST static void long_expect(double** out, int channels, const longleaf* l, int kind, u32 frq, u32 tsize, const double* amod, const double* table) {
  for (int c = 0; c < channels; c++)
    for (u32 i = 0; i < l->dur; i++)
      out[c][l->start + i] += kind == 1 ? amod[i] * table[(u64)i * frq % tsize] : kind == 2 ? 2 * long_value(i, l->id + c) : long_value(i, l->id + c);
}
static void long_render(int par) {
  sp_event_list_t* list = 0;
  sp_wave_event_config_t* wave;
  sp_map_event_config_t* map;
  sp_block_t b;
  double* expect[CHL];
  double *amod = 0, *table;
  u32 n = OPR(1, 3), i, c, end = 0, pos, size, tsize = OPR(3, 300);
  int channels = OPR(1, CHL), kinds[4], group = OP(3) == 2;
  lib_init(par ? OPR(1, 3) : 0, channels, 50);
  sp_declare_event(g);
  sp_event_t* gp = &g;
  if (par && OP(2)) {
    sp_group_parallel_event(gp);
  }
  else {
    sp_group_event(gp);
  }
  u32 frqs[4];
  for (i = 0; i < n; i += 1) {
    longs[i] = (longleaf){ i, 0, OP(2) ? 0 : OP(70000), OP(4) ? OPR(65000, 90000) : OPR(131000, 140000) };
    kinds[i] = OP(3);
    frqs[i] = OPR(1, 20);
    if (longs[i].start + longs[i].dur > end) end = longs[i].start + longs[i].dur;
  }
  sim_desc("%u long events, %u samples, %s", n, end, par ? "in parallel" : "in sequence");
  table = out_alloc(tsize);
  for (i = 0; i < tsize; i += 1) table[i] = long_value(i, 9);
  amod = out_alloc(140000);
  for (i = 0; i < 140000; i += 1) amod[i] = long_value(i, 5);
  for (c = 0; c < (u32)channels; c += 1) {
    expect[c] = out_alloc(end);
    memset(expect[c], 0, sizeof(double) * end);
  }
  for (i = 0; i < n; i += 1) {
    sp_declare_event(e);
    sp_event_t* ep = &e;
    e.end = longs[i].dur;
    if (kinds[i] == 1) {
      if (sp_wave_event_config_new(&wave).id) sim_violation("unexpected-failure", "no wave configuration");
      wave->wvf = table;
      wave->wvf_size = tsize;
      wave->channel_count = channels;
      wave->channel_config[0].frq = frqs[i];
      wave->channel_config[0].amod = amod;
      if (sp_event_memory_add_with_handler(&e, wave, free).id) sim_violation("unexpected-failure", "no memory");
      sp_wave_event(ep, wave);
    } else if (kinds[i] == 2) {
      if (sp_map_event_config_new(&map).id) sim_violation("unexpected-failure", "no map configuration");
      map->event.generate = long_generate;
      map->event.config = &longs[i];
      map->event.end = longs[i].dur;
      map->map_generate = long_map;
      map->isolate = 1;
      if (sp_event_memory_add_with_handler(&e, map, free).id) sim_violation("unexpected-failure", "no memory");
      sp_map_event(ep, map);
    } else {
      e.generate = long_generate;
      e.config = &longs[i];
    }
    long_expect(expect, channels, &longs[i], kinds[i], frqs[i], tsize, amod, table);
    e = sp_event_schedule(e, longs[i].start, 0, 0);
    if (group ? sp_group_add(&g, e).id : sp_event_list_add(&list, e).id) sim_violation("unexpected-failure", "an event can not be added");
  }
  if (group && sp_event_list_add(&list, g).id) sim_violation("unexpected-failure", "the group can not be added");
  sp_seq_events_prepare(&list);
  for (pos = 0; pos < end; pos += size) {
    size = OP(3) == 2 ? OPR(1, 70000) : OPR(66000, 150000);
    if (size > end - pos) size = end - pos;
    b.channel_count = channels;
    b.size = size;
    for (c = 0; c < (u32)channels; c += 1) {
      b.samples[c] = out_alloc(size);
      memset(b.samples[c], 0, sizeof(double) * size);
    }
    if ((par ? sp_seq_parallel(pos, pos + size, b, &list) : sp_seq(pos, pos + size, b, &list)).id) sim_violation("unexpected-failure", "rendering failed although nothing failed");
    for (c = 0; c < (u32)channels; c += 1) {
      compare("wrong-sound", b.samples[c], expect[c] + pos, size, 1e-9, "block of long events", c);
      sim_hash_bytes(b.samples[c], sizeof(double) * size);
    }
  }
  sp_event_list_free(&list);
  PROBE(long_blocks);
  sim_nontrivial();
  lib_end("after rendering long events");
}
/* parallel rendering, everything mixed, nothing fails */
void scen_par_render(void) {
  rcfg c = base_cfg();
  run_render(&c);
}
/* deeply nested parallel groups and few workers */
void scen_par_nested(void) {
  rcfg c = base_cfg();
  c.o.max_nodes = 26;
  c.o.max_depth = 6;
  c.o.only_par = 1;
  c.o.maps = c.o.wave = 0;
  c.o.max_dur = 6;
  c.o.max_start = 4;
  c.partial = 0;
  run_render(&c);
}
/* many small events over many blocks */
void scen_par_wide(void) {
  rcfg c = base_cfg();
  c.o.max_nodes = 12;
  c.o.max_depth = 1;
  c.o.max_dur = 10;
  c.o.max_start = 30;
  if (OP(250) == 77) {
    long_render(1);
    return;
  }
  if (OP(30) == 29) { /* rarely very many at once */
    c.o.max_nodes = c.o.max_root = OP(4) == 3 ? MAXC : 80;
    c.o.max_start = OPR(0, 20);
    PROBE(crowd);
  }
  run_render(&c);
}
/* wave and noise events between others */
void scen_par_synth(void) {
  rcfg c = base_cfg();
  c.o.max_nodes = 7;
  c.o.max_dur = 40;
  c.o.noise = 1;
  c.o.noise_mod = OP(2);
  c.tolerance = 1e-9;
  run_render(&c);
}
/* events that fail while rendering in parallel */
void scen_par_fail(void) {
  rcfg c = base_cfg();
  c.o.fails = 1 + OP(3);
  c.o.max_nodes = 14;
  c.abandon = 1;
  incomplete_noise(&c);
  run_render(&c);
}
/* memory that runs out while rendering */
void scen_par_nomem(void) {
  rcfg c = base_cfg();
  c.o.fails = OP(2);
  c.o.max_nodes = 12;
  c.alloc_faults = 1;
  c.parallel = 2;
  run_render(&c);
}
void scen_par_nomem_noise(void) {
  rcfg c = base_cfg();
  c.o.max_nodes = 5;
  c.o.noise = 1;
  c.o.noise_mod = OP(2);
  c.o.max_dur = 40;
  c.alloc_faults = 1;
  c.parallel = 2;
  c.tolerance = 1e-9;
  run_render(&c);
}
/* wave, noise and mapped events in blocks of all sizes equal rendering at once */
void scen_divide(void) {
  rcfg c = base_cfg();
  if (OP(400) == 77) {
    long_render(OP(3) == 2);
    return;
  }
  c.parallel = OP(3) == 2;
  if (!c.parallel) c.workers = 0;
  c.o.par = c.parallel;
  c.o.max_nodes = 8;
  c.o.max_dur = OP(2) ? 200 : 40;
  c.o.noise = OP(3) != 2;
  c.one_cut = 1;
  c.tolerance = 1e-9;
  run_render(&c);
}
/* sequential */
void scen_seq_render(void) {
  rcfg c = base_cfg();
  c.parallel = 0;
  c.workers = 0;
  c.o.par = 0;
  c.o.max_dur = 60;
  c.o.max_start = 60;
  c.abandon = 1;
  run_render(&c);
}
void scen_seq_fail(void) {
  rcfg c = base_cfg();
  c.parallel = 0;
  c.workers = 0;
  c.o.par = 0;
  c.o.fails = 1 + OP(3);
  c.alloc_faults = OP(2);
  incomplete_noise(&c);
  run_render(&c);
}
