#include "common.h"
#include <string.h>
#include <sys/mman.h>

node nodes[MAXN];
int nnodes;
int callbacks_active;
int empty_range = 1; /* empty ranges are rendered */
u64 callbacks_total;
int fail_reported[MAXN];
int nfail_reported;
int any_callback_memory_failure;
static const int prime[] = { 3, 5, 7, 11 };

NOINST long leaf_value(int id, int ch, u32 t) { return (long)((id * 7 + ch * 3 + t * prime[id & 3]) % 17) - 8; }

/* ---------- recording ---------- */
NOINST static void rec_enter(node* n) {
  callbacks_active++;
  callbacks_total++;
  if (n->in_cb) sim_violation("callback-overlap", "two callbacks of event %d run at the same time", n->id);
  n->in_cb = 1;
}
NOINST static void rec_leave(node* n) {
  n->in_cb = 0;
  callbacks_active--;
}
NOINST static void rec_created(node* n) { n->created++; }
NOINST static void rec_fail(node* n) {
  n->failed = 1;
  if (nfail_reported < MAXN) fail_reported[nfail_reported++] = n->id;
  sim_fired(F_CALLBACK_FAIL);
  if (callbacks_active > 1) PROBE(fail_while_others_run);
}
NOINST static void rec_prepare(node* n) {
  sim_trace("prepare event %d", n->id);
  if (n->freed) sim_violation("lifecycle", "event %d is prepared after it was freed", n->id);
  if (n->prepared) sim_violation("lifecycle", "event %d is prepared %u times", n->id, n->prepared + 1);
  if (n->gens) sim_violation("lifecycle", "event %d is prepared after it was generated", n->id);
  n->prepared++;
}
NOINST static void rec_generate(node* n, u32 start, u32 end, const sp_block_t* out) {
  sim_trace("generate event %d %u..%u", n->id, start, end);
  if (n->freed) sim_violation("lifecycle", "event %d generates after it was freed", n->id);
  if (n->has_prepare && !n->prepare_ok) sim_violation("lifecycle", "event %d generates without having been prepared", n->id);
  if (n->failed) sim_violation("lifecycle", "event %d is asked to generate again after it failed", n->id);
  if (end < start) sim_violation("lifecycle", "event %d generates the range %u to %u", n->id, start, end);
  if (n->started && start != n->next) sim_violation("lifecycle", "event %d generates from %u but the previous range ended at %u", n->id, start, n->next);
  if (end > n->dur) sim_violation("lifecycle", "event %d generates until %u but its duration is %u", n->id, end, n->dur);
  if (!n->started) {
    n->started = 1;
    n->bad_order = start; /* remembered: start of the first range */
  }
  if (end == start && !empty_range) sim_violation("lifecycle", "event %d generates nothing at %u although it does not sound in what is rendered", n->id, start);
  n->next = end;
  n->gens++;
  if (end > start)
    for (int c = 0; c < out->channel_count; c++)
      if (out->size < end - start || !sim_addressable(out->samples[c], sizeof(double) * out->size))
        sim_violation("lifecycle", "event %d has to generate %u samples to an output that is too small or not available (channel %d)", n->id, end - start, c);
}
NOINST static void rec_free(node* n) {
  sim_trace("free event %d", n->id);
  n->freed++;
  if (n->freed > 1) sim_violation("lifecycle", "event %d is freed %u times", n->id, n->freed);
  if (n->in_cb) sim_violation("lifecycle", "event %d is freed while one of its callbacks runs", n->id);
}
NOINST static void rec_map(node* n, u32 size, const sp_block_t* in, const sp_block_t* out) {
  for (int k = 0; k < 2; k++, in = out)
    for (int c = 0; c < in->channel_count; c++)
      if (in->size < size || (in->size && !sim_addressable(in->samples[c], sizeof(double) * in->size)))
        sim_violation("lifecycle", "map event %d has to process %u samples with %s of %u samples that is too small or not available (channel %d)", n->id, size, k ? "an output" : "an input", in->size, c);
  n->maps++;
}
NOINST static void rec_block(node* n, u32 duration, u32 block_i, u32 event_i) {
  if (!duration || duration > n->resolution) sim_violation("wrong-blocks", "a block of %u samples is generated but the resolution is %u", duration, n->resolution);
  if (block_i != n->block_pos) sim_violation("wrong-blocks", "a block starts at %u instead of %u", block_i, n->block_pos);
  n->block_pos += duration;
  (void)event_i;
}
NOINST static void rec_blocks_end(node* n, u32 size) {
  if (n->block_pos != size) sim_violation("wrong-blocks", "blocks end at %u instead of %u", n->block_pos, size);
}
NOINST static void rec_mem_fail(void) { any_callback_memory_failure = 1; }
NOINST static void rec_prepare_ok(node* n) { n->prepare_ok = 1; }
NOINST static void rec_handler_added(node* n) { n->handler_added++; }
NOINST static void rec_handler(node* n, u32 index) {
  if (index != n->handler_calls) sim_violation("registration", "memory %u of event %d is released, but %u was expected next", index, n->id, n->handler_calls);
  n->handler_calls++;
}
NOINST void check_nothing_running(const char* when) {
  if (callbacks_active) sim_violation("work-left", "%d callbacks of events are still running %s", callbacks_active, when);
}

/* ---------- callbacks, instrumented ---------- */
typedef struct {
  node* n;
  u32 index;
} handler_data;
static void handler(void* a) {
  handler_data* h = a;
  rec_handler(h->n, h->index);
  free(h);
}
static status_t fail_status(node* n) {
  status_t s = { 1000 + n->id, (uint8_t*)TEST_GROUP };
  rec_fail(n);
  return s;
}
static status_t sp_event_malloc_status(sp_event_t* e, node* n);
NOINST static node* noise_failing(const sp_time_t* amod) {
  for (int i = 0; i < nnodes; i++)
    if (nodes[i].kind == N_NOISE && nodes[i].amod == (void*)amod) return nodes + i;
  return 0;
}
/* a noise event whose first channel has no amplitudes can not be prepared */
static status_t noise_prepare_failing(sp_event_t* e) {
  sp_noise_event_config_t* c = e->config;
  void* amod = c->channel_config[0].amod;
  node* n = noise_failing(amod);
  rec_fail(n);
  PROBE(noise_incomplete);
  c->channel_config[0].amod = 0;
  status_t s = sp_noise_event_prepare(e);
  c->channel_config[0].amod = amod;
  return s;
}
static status_t leaf_prepare(sp_event_t* e) {
  status_declare;
  node* n = e->config;
  u32 i;
  handler_data* h;
  rec_enter(n);
  rec_prepare(n);
  if (n->eager) e->end = e->start + n->dur;
  if (n->parent_state && n->parent && n->parent->state) n->parent->state[1 + n->id % 4] += 0;
  if (n->memkind == 3) {
    for (i = 0; i < 3; i += 1) {
      h = malloc(sizeof *h);
      if (!h) { sp_memory_error; }
      h->n = n;
      h->index = n->handler_added;
      status = sp_event_memory_add_with_handler(e, h, handler);
      if (status_is_failure) {
        free(h);
        goto exit;
      }
      rec_handler_added(n);
    }
  }
  if (n->memkind) {
    status_require(sp_event_malloc_status(e, n));
    n->state[0] = 1;
    n->state[1] = n->id;
  }
  if (n->fail_prepare) status = fail_status(n);
  else rec_prepare_ok(n);
exit:
  if (status_is_failure && !n->failed) rec_mem_fail();
  rec_leave(n);
  status_return;
}
static status_t sp_event_malloc_status(sp_event_t* e, node* n) {
  status_declare;
  u32* p;
  sp_event_malloc_srq(e, 16 * sizeof(u32), &p);
  n->state = p;
exit:
  status_return;
}
static void write_leaf(node* n, u32 start, u32 end, sp_block_t out) {
  u32 i;
  int c;
  for (c = 0; c < out.channel_count; c += 1)
    for (i = start; i < end; i += 1) out.samples[c][i - start] += leaf_value(n->id, c, i);
}
static status_t leaf_block(sp_time_t duration, sp_time_t block_i, sp_time_t event_i, sp_block_t out, sp_event_t* e) {
  status_declare;
  node* n = e->config;
  u32 i;
  int c;
  rec_block(n, duration, block_i, event_i);
  for (c = 0; c < out.channel_count; c += 1)
    for (i = 0; i < duration; i += 1) out.samples[c][block_i + i] += leaf_value(n->id, c, event_i + i);
  status_return;
}
static status_t leaf_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  node* n = e->config;
  u32 i;
  handler_data* h;
  rec_enter(n);
  rec_generate(n, start, end, &out);
  if (n->memkind) n->state[0] += 1;
  if (n->memkind == 2 && n->gens < 6) {
    h = malloc(sizeof *h);
    if (!h) { sp_memory_error; }
    h->n = n;
    h->index = n->handler_added;
    status = sp_event_memory_add_with_handler(e, h, handler);
    if (status_is_failure) {
      free(h);
      goto exit;
    }
    rec_handler_added(n);
  }
  for (i = 0; i < n->yields; i += 1) sim_yield();
  if (n->fail_at >= 0 && (u32)n->fail_at < end) {
    write_leaf(n, start, start + (end - start) / 2, out);
    status = fail_status(n);
    goto exit;
  }
  if (n->resolution && sp_event_block_generate) {
    n->block_pos = 0;
    status = sp_event_block_generate(n->resolution, leaf_block, start, end, out, e);
    rec_blocks_end(n, end - start);
  } else write_leaf(n, start, end, out);
  if (n->parent_state && n->parent && n->parent->state) i = n->parent->state[0];
exit:
  if (status_is_failure && !n->failed) rec_mem_fail();
  rec_leave(n);
  status_return;
}
static void leaf_free(sp_event_t* e) {
  node* n = e->config;
  rec_free(n);
  e->free = 0;
  if (n->memkind && e->memory.data && n->state) n->state[2] += 1;
  if (n->parent_state && n->parent && n->parent->state) n->parent->state[3] = n->id; /* must still be allocated */
  sp_event_memory_free(e);
}
static status_t map_function(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* config) {
  status_declare;
  node* n = config;
  u32 i;
  int c;
  rec_enter(n);
  rec_map(n, end - start, &in, &out);
  for (c = 0; c < out.channel_count; c += 1)
    for (i = 0; i < end - start; i += 1)
      out.samples[c][i] += leaf_value(n->id, c, start + i) + (n->kind == N_MAP_ISO ? 3 * in.samples[c][i] : 0);
  if (n->fail_at >= 0 && (u32)n->fail_at < end) status = fail_status(n);
  rec_leave(n);
  status_return;
}
static status_t lazy_prepare(sp_event_t* e) {
  status_declare;
  sp_event_t child;
  node* n = e->config;
  int k;
  rec_enter(n);
  rec_prepare(n);
  if (n->kind == N_LAZY) { sp_group_event(e); }
  else { sp_group_parallel_event(e); }
  e->end = 0; /* appending starts there */
  if (n->memkind) {
    status_require(sp_event_malloc_status(e, n));
    n->state[0] = 7;
  }
  for (k = 0; k < n->nchild; k += 1) {
    node* c = n->child[n->order[k]];
    status_require(build_event(c, &child));
    if (c->append) {
      status_require(sp_group_append(e, child));
    } else {
      child = sp_event_schedule(child, c->start, 0, 0);
      status_require(sp_group_add(e, child));
    }
  }
  e->end = e->start + n->dur;
  if (n->fail_prepare) {
    status = fail_status(n);
    goto exit;
  }
  sp_event_prepare_optional_srq((*e));
  rec_prepare_ok(n);
exit:
  if (status_is_failure && !n->failed) rec_mem_fail();
  rec_leave(n);
  status_return;
}

/* ---------- building ---------- */
status_t build_event(node* n, sp_event_t* out) {
  status_declare;
  sp_event_t child;
  int k;
  sp_declare_event(e);
  sp_event_t* ep = &e;
  rec_created(n);
  switch (n->kind) {
  case N_LEAF:
    e.end = n->eager ? 0 : n->dur;
    e.prepare = n->has_prepare ? leaf_prepare : 0;
    e.generate = leaf_generate;
    e.free = n->has_free ? leaf_free : 0;
    e.config = n;
    break;
  case N_LAZY:
  case N_LAZY_PAR:
    e.end = n->eager ? 0 : n->dur;
    e.prepare = lazy_prepare;
    e.config = n;
    break;
  case N_GROUP:
  case N_GROUP_PAR:
    if (n->kind == N_GROUP) { sp_group_event(ep); }
    else { sp_group_parallel_event(ep); }
    for (k = 0; k < n->nchild; k += 1) {
      node* c = n->child[n->order[k]];
      status = build_event(c, &child);
      if (status_is_failure) goto group_exit;
      if (c->append) status = sp_group_append(&e, child);
      else {
        child = sp_event_schedule(child, c->start, 0, 0);
        status = sp_group_add(&e, child);
      }
      if (status_is_failure) goto group_exit;
    }
    e.end = n->dur;
  group_exit:
    if (status_is_failure) {
      sp_event_free(e);
      goto exit;
    }
    break;
  case N_MAP:
  case N_MAP_ISO: {
    sp_map_event_config_t* mc = &n->mapc;
    if (n->own_config) {
      status_require(sp_map_event_config_new(&mc));
      status = sp_event_memory_add(ep, mc);
      if (status_is_failure) {
        free(mc);
        goto exit;
      }
    }
    status = build_event(n->child[0], &child);
    if (status_is_failure) {
      sp_event_free(e);
      goto exit;
    }
    mc->config = n;
    mc->event = child;
    mc->map_generate = map_function;
    mc->isolate = n->kind == N_MAP_ISO;
    sp_map_event(ep, mc);
    e.end = n->dur;
    break;
  }
  case N_WAVE: {
    sp_wave_event_config_t* wc = &n->wave_live;
    if (n->own_config) {
      status_require(sp_wave_event_config_new(&wc));
      status = sp_event_memory_add(ep, wc);
      if (status_is_failure) {
        free(wc);
        goto exit;
      }
    }
    *wc = n->wavec;
    sp_wave_event(ep, wc);
    e.end = n->dur;
    break;
  }
  case N_NOISE: {
    sp_noise_event_config_t* nc = &n->noisec;
    if (n->own_config) {
      status_require(sp_noise_event_config_new(&nc));
      status = sp_event_memory_add(ep, nc);
      if (status_is_failure) {
        free(nc);
        goto exit;
      }
      *nc = n->noisec;
    }
    sp_noise_event(ep, nc);
    if (n->fail_prepare) ep->prepare = noise_prepare_failing;
    e.end = n->dur;
    break;
  }
  }
  *out = e;
exit:
  status_return;
}
status_t build_list(node* root, sp_event_list_t** list) {
  status_declare;
  sp_event_t child;
  int k;
  *list = 0;
  for (k = 0; k < root->nchild; k += 1) {
    node* c = root->child[root->order[k]];
    status_require(build_event(c, &child));
    child = sp_event_schedule(child, c->start, 0, 0);
    status = sp_event_list_add(list, child);
    if (status_is_failure) {
      sp_event_free(child);
      goto exit;
    }
  }
  sp_seq_events_prepare(list);
exit:
  if (status_is_failure) sp_event_list_free(list);
  status_return;
}

/* ---------- generating ---------- */
NOINST treeopt treeopt_all(void) {
  treeopt o = { .max_nodes = 18, .max_depth = 4, .par = 1, .lazy = 1, .maps = 1, .wave = 1, .noise = 0, .noise_mod = 0, .eager = 1, .appends = 1, .fails = 0, .max_dur = 24, .max_start = 20, .mem = 1, .clip = 1, .nopreps = 1 };
  return o;
}
static int noise_left, fails_left, budget_nodes;
static sp_sample_t wave_table[16];
NOINST static node* node_new(int kind, node* parent) {
  if (nnodes >= MAXN) return 0;
  node* n = &nodes[nnodes];
  memset(n, 0, sizeof *n);
  n->id = nnodes++;
  n->kind = kind;
  n->parent = parent;
  n->fail_at = -1;
  return n;
}
NOINST node* make_leaf(u32 dur, node* parent) {
  node* n = node_new(N_LEAF, parent);
  if (!n) sim_violation("crash-in-checker", "too many nodes");
  n->dur = dur;
  n->has_prepare = OP(8) != 7;
  n->has_free = 1;
  return n;
}
NOINST static void* harness_alloc(size_t n) {
  static char pool[32 << 20];
  static size_t used;
  if (used + n > sizeof pool) sim_violation("crash-in-checker", "harness pool exhausted");
  void* r = pool + used;
  used += (n + 63) & ~(size_t)63;
  return r;
}
NOINST double* out_alloc(u32 n) { return harness_alloc((n + 1) * sizeof(double)); }
NOINST static u32 draw_dur(const treeopt* o) {
  switch (OP(4)) {
  case 0: return OPR(1, 4);
  case 1: return OPR(1, o->max_dur);
  case 2: return OPR(1, o->max_dur);
  default: return 1 + OP(o->max_dur) / 2;
  }
}
NOINST static node* gen_node(const treeopt* o, node* parent, int depth);
NOINST static void gen_children(const treeopt* o, node* n, int depth, int max) {
  int count = OPR(1, max);
  u32 end = 0;
  int spread = OP(3);
  for (int k = 0; k < count && budget_nodes > 0; k++) {
    node* c = gen_node(o, n, depth + 1);
    if (!c) break;
    n->child[n->nchild++] = c;
  }
  /* insertion order: permutation */
  for (int k = 0; k < n->nchild; k++) n->order[k] = k;
  for (int k = n->nchild - 1; k > 0; k--) {
    int j = k - (int)OP(k + 1);
    u16 t = n->order[k];
    n->order[k] = n->order[j];
    n->order[j] = t;
  }
  for (int k = 0; k < n->nchild; k++) {
    node* c = n->child[n->order[k]];
    if (!n->parent) c->eager = 0; /* only groups prepare events whose end is not known */
    c->append = n->parent && o->appends && OP(4) == 3;
    if (c->append) {
      c->start = end;
      end += c->dur;
    } else {
      c->start = spread == 0 ? OP(3) * 4 : OP(o->max_start + 1);
      if (c->eager) c->start = 0;
      if (c->start + c->dur > end) end = c->start + c->dur;
    }
  }
  n->dur = end;
  if (o->clip && n->parent && OP(6) == 5) n->dur = 1 + OP(end);
}
NOINST static node* gen_node(const treeopt* o, node* parent, int depth) {
  int kinds[24], nk = 0;
  kinds[nk++] = N_LEAF;
  kinds[nk++] = N_LEAF;
  kinds[nk++] = N_LEAF;
  if (depth < o->max_depth && budget_nodes > 2) {
    kinds[nk++] = N_GROUP;
    if (o->par) { kinds[nk++] = N_GROUP_PAR; kinds[nk++] = N_GROUP_PAR; }
    if (o->only_par) {
      kinds[nk++] = N_GROUP_PAR;
      kinds[nk++] = N_GROUP_PAR;
      kinds[nk++] = N_GROUP_PAR;
    }
    if (o->lazy) {
      kinds[nk++] = N_LAZY;
      if (o->par) kinds[nk++] = N_LAZY_PAR;
    }
    if (o->maps) { kinds[nk++] = N_MAP; kinds[nk++] = N_MAP_ISO; }
  }
  if (o->wave) kinds[nk++] = N_WAVE;
  if (o->noise && noise_left > 0) kinds[nk++] = N_NOISE;
  int kind = kinds[OP(nk)];
  if (budget_nodes <= 0) return 0;
  budget_nodes--;
  node* n = node_new(kind, parent);
  if (!n) return 0;
  int fail = fails_left > 0 && OP(4) == 1;
  if (kind == N_MAP || kind == N_MAP_ISO || kind == N_WAVE || kind == N_NOISE) n->own_config = o->mem && OP(2);
  switch (kind) {
  case N_LEAF:
    n->dur = draw_dur(o);
    n->has_prepare = !o->nopreps || OP(8) != 7;
    n->has_free = OP(8) != 7;
    n->memkind = o->mem && n->has_prepare ? OP(4) : 0;
    n->eager = o->eager && n->has_prepare && OP(8) == 1;
    n->yields = OP(4) == 3 ? OP(4) : 0;
    n->resolution = OP(5) == 4 ? OPR(1, 9) : 0;
    n->parent_state = parent && (parent->kind == N_LAZY || parent->kind == N_LAZY_PAR) && OP(2);
    if (fail) {
      fails_left--;
      if (n->has_prepare && OP(3) == 0) n->fail_prepare = 1;
      else n->fail_at = OP(n->dur);
    }
    break;
  case N_LAZY:
  case N_LAZY_PAR:
    n->memkind = 1;
    n->has_prepare = 1;
    gen_children(o, n, depth, 4);
    n->eager = o->eager && OP(8) == 1;
    if (fail && OP(2)) {
      fails_left--;
      n->fail_prepare = 1;
    }
    break;
  case N_GROUP:
  case N_GROUP_PAR: gen_children(o, n, depth, kind == N_GROUP ? 4 : 6); break;
  case N_MAP:
  case N_MAP_ISO: {
    node* c = gen_node(o, n, depth + 1);
    if (!c) { /* cannot wrap anything: becomes a leaf */
      n->kind = N_LEAF;
      n->dur = draw_dur(o);
      n->has_free = 1;
      break;
    }
    c->eager = 0;
    n->child[n->nchild++] = c;
    n->dur = c->dur;
    if (fail && OP(2)) {
      fails_left--;
      n->fail_at = OP(n->dur);
    }
    break;
  }
  case N_WAVE: {
    sp_wave_event_config_t* w = &n->wavec;
    n->dur = draw_dur(o);
    n->amod = harness_alloc(sizeof(double) * (n->dur + 1));
    for (u32 i = 0; i < n->dur; i++) n->amod[i] = (int)((n->id + i * 3) % 5) - 2;
    memset(w, 0, sizeof *w);
    w->wvf = wave_table;
    w->wvf_size = 16;
    for (int i = 0; i < 16; i++) wave_table[i] = (i * 5) % 16 - 7;
    w->channel_count = 1 + OP(CHL);
    int rotate = OP(3) ? 0 : 1;
    for (int c = 0; c < w->channel_count; c++) {
      sp_wave_event_channel_config_t* cc = &w->channel_config[c];
      cc->use = c == 0 || OP(2);
      cc->channel = (c + rotate) % w->channel_count;
      cc->amp = 1 + OP(3);
      cc->frq = OP(20);
      cc->phs = OP(3) ? 0 : OP(16);
      if (c == 0) cc->amod = n->amod;
      if (OP(3) == 1) {
        cc->fmod = harness_alloc(sizeof(sp_time_t) * (n->dur + 1));
        for (u32 i = 0; i < n->dur; i++) cc->fmod[i] = (i * 7 + n->id + c) % 23;
      }
      if (OP(3) == 1) {
        cc->pmod = harness_alloc(sizeof(sp_time_t) * (n->dur + 1));
        for (u32 i = 0; i < n->dur; i++) cc->pmod[i] = (i * 3 + n->id + c) % 37;
      }
    }
    break;
  }
  case N_NOISE: {
    sp_noise_event_config_t* w = &n->noisec;
    noise_left--;
    n->dur = OPR(1, o->max_dur * 2);
    n->amod = harness_alloc(sizeof(double) * (n->dur + 1));
    for (u32 i = 0; i < n->dur; i++) n->amod[i] = 0.25 + (i % 5) * 0.25;
    *w = sp_noise_event_config_defaults();
    w->channel_count = 1 + OP(CHL);
    w->is_reject = OP(2);
    w->resolution = OPR(1, 16);
    if (fail) {
      fails_left--;
      n->fail_prepare = 1;
    }
    for (int c = 0; c < w->channel_count; c++) {
      sp_noise_event_channel_config_t* cc = &w->channel_config[c];
      cc->use = c == 0 || OP(2);
      cc->amp = 1 + OP(2);
      if (c == 0) cc->amod = n->amod;
      if (c == 0 || OP(2)) {
        cc->frq = OPR(1, sp_rate / 4);
        cc->wdt = OPR(1, sp_rate / 4);
        cc->trnl = OPR(sp_rate / 12 + 1, sp_rate / 4);
        cc->trnh = OPR(sp_rate / 12 + 1, sp_rate / 4);
      } else if (OP(2)) cc->frq = cc->wdt = cc->trnl = cc->trnh = 0; /* shares the filtered noise of the first channel */
      if (o->noise_mod && OP(3) == 2) {
        cc->fmod = harness_alloc(sizeof(sp_time_t) * (n->dur + 1));
        for (u32 i = 0; i < n->dur; i++) cc->fmod[i] = 1 + (i * 3 + c) % (sp_rate / 4);
      }
      if (o->noise_mod && OP(3) == 2) {
        cc->wmod = harness_alloc(sizeof(sp_time_t) * (n->dur + 1));
        for (u32 i = 0; i < n->dur; i++) cc->wmod[i] = 1 + (i * 5 + c) % (sp_rate / 4);
      }
    }
    break;
  }
  }
  return n;
}
NOINST node* gen_tree(const treeopt* o) {
  noise_left = o->noise;
  fails_left = o->fails;
  budget_nodes = o->max_nodes <= 3 ? o->max_nodes : 2 + (int)OP(o->max_nodes - 1);
  node* r = node_new(N_GROUP, 0);
  gen_children(o, r, 0, o->max_root ? o->max_root : 8);
  return r;
}
NOINST u32 tree_end(const node* r) {
  u32 e = 0;
  for (int i = 0; i < r->nchild; i++)
    if (r->child[i]->start + r->child[i]->dur > e) e = r->child[i]->start + r->child[i]->dur;
  return e;
}
NOINST int tree_has(const node* n, int kind) {
  if (n->kind == kind && n->parent) return 1;
  for (int i = 0; i < n->nchild; i++)
    if (tree_has(n->child[i], kind)) return 1;
  return 0;
}
NOINST void tree_reset_history(void) {
  for (int i = 0; i < nnodes; i++) {
    node* n = &nodes[i];
    n->created = n->prepared = n->prepare_ok = n->freed = n->gens = n->next = n->maps = n->handler_calls = n->handler_added = n->bad_order = 0;
    n->started = n->in_cb = n->failed = 0;
    n->state = 0;
  }
  callbacks_active = 0;
  nfail_reported = 0;
  any_callback_memory_failure = 0;
}
NOINST void tree_reset_history_noise(node* n) {
  if (n->kind == N_NOISE) n->created = 0;
  for (int i = 0; i < n->nchild; i++) tree_reset_history_noise(n->child[i]);
}
NOINST void describe_tree(const node* n) {
  static const char* kn[] = { "leaf", "group", "pgroup", "lazy", "plazy", "map", "imap", "wave", "noise" };
  if (n->parent) sim_desc("%s%d@%u+%u%s%s%s", kn[n->kind], n->id, n->start, n->dur, n->fail_prepare ? "!p" : n->fail_at >= 0 ? "!g" : "", n->eager ? "e" : "", n->append ? "a" : "");
  else sim_desc("events");
  if (n->nchild) {
    sim_desc("(");
    for (int i = 0; i < n->nchild; i++) {
      if (i) sim_desc(" ");
      describe_tree(n->child[n->order[i]]);
    }
    sim_desc(")");
  }
}

/* ---------- model ---------- */
static double noise_ref[2][CHL][MAXDUR * 2];
static int noise_ref_id[2] = { -1, -1 };
NOINST static void model_node(const node* n, long base, long lo, long hi, long out0, double scale, double* const* out, int channels) {
  long a = base > lo ? base : lo, b = base + n->dur < hi ? base + n->dur : hi;
  if (a >= b) return;
  switch (n->kind) {
  case N_LEAF:
    for (int c = 0; c < channels; c++)
      for (long t = a; t < b; t++) out[c][t - out0] += scale * leaf_value(n->id, c, t - base);
    break;
  case N_MAP:
    for (int c = 0; c < channels; c++)
      for (long t = a; t < b; t++) out[c][t - out0] += scale * leaf_value(n->id, c, t - base);
    model_node(n->child[0], base, a, b, out0, scale, out, channels);
    break;
  case N_MAP_ISO:
    for (int c = 0; c < channels; c++)
      for (long t = a; t < b; t++) out[c][t - out0] += scale * leaf_value(n->id, c, t - base);
    model_node(n->child[0], base, a, b, out0, scale * 3, out, channels);
    break;
  case N_WAVE:
    for (int c = 0; c < n->wavec.channel_count; c++) {
      const sp_wave_event_channel_config_t* c0 = &n->wavec.channel_config[0];
      sp_wave_event_channel_config_t cc = n->wavec.channel_config[c];
      if (c) {
        if (cc.use) {
          if (!cc.amod) cc.amod = c0->amod;
          if (!cc.pmod) cc.pmod = c0->pmod;
          if (!cc.fmod) cc.fmod = c0->fmod;
          if (!cc.frq) cc.frq = c0->frq;
        } else {
          int channel = cc.channel;
          cc = *c0;
          cc.channel = channel;
        }
      }
      u32 phs = cc.phs;
      for (long t = a; t < b; t++) {
        long i = t - base;
        u32 p = cc.pmod ? (phs + cc.pmod[i]) % 16 : phs;
        if (cc.channel < channels) out[cc.channel][t - out0] += scale * cc.amp * cc.amod[i] * wave_table[p];
        phs = (phs + cc.frq + (cc.fmod ? cc.fmod[i] : 0)) % 16;
      }
    }
    break;
  case N_NOISE: {
    int k = noise_ref_id[0] == n->id ? 0 : noise_ref_id[1] == n->id ? 1 : -1;
    if (k < 0) break;
    for (int c = 0; c < channels; c++)
      for (long t = a; t < b; t++) out[c][t - out0] += scale * noise_ref[k][c][t - base];
    break;
  }
  default:
    for (int i = 0; i < n->nchild; i++) model_node(n->child[i], base + n->child[i]->start, a, b, out0, scale, out, channels);
  }
}
NOINST void model_add(const node* r, u32 lo, u32 hi, double* const* out, int channels, const u32* cuts, int ncuts) {
  (void)cuts;
  (void)ncuts;
  for (int i = 0; i < r->nchild; i++) model_node(r->child[i], r->child[i]->start, lo, hi, lo, 1, out, channels);
}
/* noise alone, with the random state as it is now, which is restored afterwards */
static void noise_prepare(node* n, long base, long lo, long hi, const u32* cuts, int ncuts) {
  sp_random_state_t saved = sp_random_state;
  sp_event_t e;
  sp_block_t b;
  int k = noise_ref_id[0] < 0 ? 0 : 1, c, i;
  long a = base > lo ? base : lo, z = base + n->dur < hi ? base + n->dur : hi;
  noise_ref_id[k] = n->id;
  if (a >= z) return;
  sp_noise_event_config_t saved_config = n->noisec;
  if (build_event(n, &e).id) sim_violation("unexpected-failure", "a noise event can not be created");
  if (sp_noise_event_prepare(&e).id) sim_violation("unexpected-failure", "a noise event can not be prepared");
  for (i = 0; i + 1 < ncuts; i++) {
    long x = (long)cuts[i] > a ? (long)cuts[i] : a, y = (long)cuts[i + 1] < z ? (long)cuts[i + 1] : z;
    if (x >= y) continue;
    b.channel_count = CHL;
    b.size = y - x;
    for (c = 0; c < CHL; c++) b.samples[c] = noise_ref[k][c] + (x - base);
    if ((e.generate)(x - base, y - base, b, &e).id) sim_violation("unexpected-failure", "a noise event can not be generated");
  }
  sp_event_free(e);
  n->noisec = saved_config;
  sp_random_state = saved;
}
static void noise_walk(node* n, long base, long lo, long hi, const u32* cuts, int ncuts) {
  long a = base > lo ? base : lo, b = base + n->dur < hi ? base + n->dur : hi;
  int i;
  if (a >= b) return;
  if (n->kind == N_NOISE) noise_prepare(n, base, lo, hi, cuts, ncuts);
  for (i = 0; i < n->nchild; i++) noise_walk(n->child[i], n->kind == N_MAP || n->kind == N_MAP_ISO ? base : base + n->child[i]->start, a, b, cuts, ncuts);
}
void model_prepare_noise(node* r, u32 lo, u32 hi, const u32* cuts, int ncuts) {
  int i;
  noise_ref_id[0] = noise_ref_id[1] = -1;
  memset(noise_ref, 0, sizeof noise_ref);
  for (i = 0; i < r->nchild; i++) noise_walk(r->child[i], r->child[i]->start, lo, hi, cuts, ncuts);
}

/* ---------- histories ---------- */
NOINST static void history_node(node* n, long base, long lo, long hi, int complete) {
  long a = base > lo ? base : lo, b = base + n->dur < hi ? base + n->dur : hi;
  int active = a < b;
  if (n->created > 1) sim_violation("lifecycle", "event %d was created %u times", n->id, n->created);
  if (n->kind == N_LEAF) {
    if (n->created && n->has_free && n->freed != 1) sim_violation("lifecycle", "event %d was freed %u times", n->id, n->freed);
    if (n->handler_calls != n->handler_added) sim_violation("registration", "event %d registered %u addresses with a handler, which was called for %u", n->id, n->handler_added, n->handler_calls);
    if (complete) {
      if (active) {
        if (!n->started) sim_violation("lifecycle", "event %d was never generated", n->id);
        if ((long)n->bad_order != a - base) sim_violation("lifecycle", "the first range of event %d starts at %u instead of %ld", n->id, n->bad_order, a - base);
        if ((long)n->next != b - base) sim_violation("lifecycle", "event %d was generated until %u instead of %ld", n->id, n->next, b - base);
      } else if (n->started && n->next > n->bad_order) sim_violation("lifecycle", "event %d was generated outside of the rendered range", n->id);
    }
  }
  for (int i = 0; i < n->nchild; i++)
    history_node(n->child[i], n->kind == N_MAP || n->kind == N_MAP_ISO ? base : base + n->child[i]->start, active ? a : 1, active ? b : 0, complete);
}
NOINST void check_histories(node* r, u32 lo, u32 hi, int complete) {
  for (int i = 0; i < r->nchild; i++) history_node(r->child[i], r->child[i]->start, lo, hi, complete);
}

/* ---------- blocks ---------- */
void* harness_malloc(size_t n) { return sim_malloc_sure(n); }
NOINST u32 gen_cuts(u32 lo, u32 hi, u32* cuts, u32 max) {
  u32 n = 0, at = lo;
  int style = OP(5);
  u32 fixed = OPR(1, 12);
  cuts[n++] = lo;
  while (at < hi && n < max - 1) {
    u32 s;
    switch (style) {
    case 0: s = hi - lo; break;
    case 1: s = fixed; break;
    case 2: s = OPR(1, 5); break;
    case 3: s = OP(10) == 1 ? 0 : OPR(1, 30); break;
    default: s = 1 + OP(2) * OP(40); break;
    }
    if (s > hi - at) s = hi - at;
    if (s == 0) PROBE(empty_block);
    if (s == 1) PROBE(one_sample_block);
    at += s;
    cuts[n++] = at;
  }
  if (cuts[n - 1] != hi) cuts[n++] = hi;
  if (n < 2) cuts[n++] = hi;
  if (n > 2) PROBE(multi_block);
  return n;
}
NOINST void fill_pattern(double* a, u32 n, int salt) {
  for (u32 i = 0; i < n; i++) a[i] = (double)((i * 31 + salt * 17) % 64) - 30;
}
NOINST void compare(const char* kind, const double* got, const double* want, u32 n, double tol, const char* what, int ch) {
  for (u32 i = 0; i < n; i++) {
    double d = got[i] - want[i];
    if (!(d <= tol && d >= -tol)) sim_violation(kind, "%s: sample %u of channel %d is %.12g instead of %.12g", what, i, ch, got[i], want[i]);
  }
}

/* ---------- life cycle ---------- */
static u64 lib_mark;
/* rarely one that is used for sound. start-up takes long then */
NOINST u32 draw_rate(u32 usual) {
  static const u32 rates[] = { 8000, 22050, 32768, 44100, 48000, 65536, 88200, 96000 };
  if (OP(700) < 699) return usual;
  PROBE(sound_rate);
  return rates[OP(8)];
}
NOINST void lib_init(u32 workers, u32 channels, u32 rate) {
  int f = sim_faults_enabled();
  sim_faults_off();
  lib_mark = sim_heap_mark();
  status_t s = sp_initialize(workers, channels, rate);
  if (s.id) sim_violation("unexpected-failure", "sp_initialize failed with status %d without a fault", s.id);
  if (sim_live_threads() != (int)workers) sim_violation("threads", "%d threads run after sp_initialize for %u", sim_live_threads(), workers);
  if (workers == 1) PROBE(workers_1);
  if (workers > 2) PROBE(workers_many);
  if (f) sim_faults_on();
}
NOINST void lib_end(const char* when) {
  sim_faults_off();
  check_nothing_running(when);
  sp_deinitialize();
  if (sim_live_threads()) sim_violation("threads", "%d threads have not ended after sp_deinitialize", sim_live_threads());
  sim_leak_check(lib_mark, when);
  sim_heap_check();
}
/* futures of the user that can only finish when the main thread lets them */
#define MAXHELD 12
static pthread_mutex_t hold_gate;
static sph_future_t* held[MAXHELD];
static u32 nheld;
static void* run_held(void* x) {
  pthread_mutex_lock(&hold_gate);
  pthread_mutex_unlock(&hold_gate);
  return x;
}
NOINST void hold_begin(u32 n) {
  if (n > MAXHELD) n = MAXHELD;
  pthread_mutex_init(&hold_gate, 0);
  pthread_mutex_lock(&hold_gate);
  PROBE(held_futures);
  for (nheld = 0; nheld < n; nheld++) {
    held[nheld] = harness_malloc(sizeof(sph_future_t));
    sph_future_new(run_held, &held[nheld], held[nheld]);
  }
}
NOINST void hold_end(void) {
  pthread_mutex_unlock(&hold_gate);
  for (u32 i = 0; i < nheld; i++) {
    if (sph_future_touch(held[i]) != &held[i]) sim_violation("wrong-result", "a future that was held back has another result than its function");
    sim_free(held[i]);
  }
  nheld = 0;
  pthread_mutex_destroy(&hold_gate);
}
NOINST int status_is_memory(status_t s) {
  if (!s.id || !s.group) return 0;
  return (s.id == sp_s_id_memory && !strcmp((char*)s.group, sp_s_group_sp)) || (s.id == 1 && !strcmp((char*)s.group, sp_s_group_sph));
}
NOINST void check_status_shape(status_t s, const char* what) {
  static const char* groups[] = { sp_s_group_libc, sp_s_group_sph, sp_s_group_sp, TEST_GROUP };
  u32 i;
  if (!s.group) sim_violation("bad-status", "%s returned a status without a group", what);
  if (!s.id) return;
  for (i = 0; i < 4 && strcmp((char*)s.group, groups[i]); i += 1);
  if (i == 4) sim_violation("bad-status", "%s returned status %d of an unknown group", what, s.id);
}
NOINST u32 pick_workers(void) {
  switch (OP(5)) {
  case 0: return 2;
  case 1: return 1;
  case 2: return 3;
  case 3: return OPR(1, 8);
  default: return OPR(1, 4);
  }
}
