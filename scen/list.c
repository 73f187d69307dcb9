/* Histories of list and group operations (C09) and of memory registrations (C14), with allocation failures. */
#include "common.h"
#include <string.h>

/* ---------- lists and groups ---------- */
#define MAXG 5
#define MAXL 80
typedef struct {
  int kind; /* 0 leaf, 1 group */
  int alive;
  int where;   /* -2 gone, -1 held by the scenario, 0 top-level list, 1.. in group */
  u32 start;   /* relative to where it is */
  u32 end;     /* end relative to where it is */
  node* n;     /* leaf */
  int parallel;
} item;
static item items[MAXL + MAXG];
static int nitems;
static sp_event_t gevents[MAXG];
static int gitem[MAXG]; /* item of group */
static u32 gend[MAXG];  /* model of the group's end */
static int ngroups;

NOINST static void item_gone(int k, const char* how) {
  item* t = &items[k];
  t->where = -2;
  if (t->kind == 0) {
    if (t->n->freed != 1) sim_violation("lifecycle", "event %d has been freed %u times after %s", t->n->id, t->n->freed, how);
  } else {
    for (int g = 0; g < ngroups; g++)
      if (gitem[g] == k)
        for (int i = 0; i < nitems; i++)
          if (items[i].where == 1 + g) item_gone(i, how);
  }
}
NOINST static int count_in(int where) {
  int c = 0;
  for (int i = 0; i < nitems; i++) c += items[i].where == where;
  return c;
}
/* the list has exactly the elements it should have, linked in both directions */
NOINST static void check_list(const sp_event_list_t* l, int where, const char* when) {
  const sp_event_list_t* prev = 0;
  u8 seen[MAXL + MAXG] = { 0 };
  int c = 0;
  sp_event_list_t* first = (sp_event_list_t*)l;
  for (; l; prev = l, l = l->next, c++) {
    if (!sim_addressable(l, sizeof *l)) sim_violation("broken-list", "an element of a list is not valid memory %s", when);
    if (l->previous != prev) sim_violation("broken-list", "an element of a list is not linked to the previous one %s", when);
    if (c > MAXL + MAXG) sim_violation("broken-list", "a list does not end %s", when);
    int hit = -1;
    for (int i = 0; i < nitems && hit < 0; i++) {
      if (items[i].where != where || seen[i] || items[i].start != l->event.start) continue;
      if (items[i].kind == 0 ? l->event.config == items[i].n : items[i].end == l->event.end && l->event.generate == (items[i].parallel ? sp_group_generate_parallel : sp_group_generate)) hit = i;
    }
    if (hit < 0) sim_violation("broken-list", "a list has an event that should not be in it, starting at %u %s", l->event.start, when);
    if (items[hit].end != l->event.end) sim_violation("broken-list", "an event in a list has the end %u instead of %u %s", l->event.end, items[hit].end, when);
    seen[hit] = 1;
  }
  if (c != count_in(where)) sim_violation("broken-list", "a list has %d events instead of %d %s", c, count_in(where), when);
  sp_event_list_validate(first);
  sp_event_list_display(first);
}
static long window; /* start of the rendered part */
static u32 late; /* 0, or events are at the beginning of time and around this time */
/* latest end of events that are early or late */
NOINST static u32 last_end(int where, u32 base, int is_late) {
  u32 r = 0, x;
  for (int i = 0; i < nitems; i++) {
    item* t = &items[i];
    if (t->where != where) continue;
    if (t->kind == 0) {
      x = base + t->end;
      if ((late && x >= late) == is_late && x > r) r = x;
    } else
      for (int g = 0; g < ngroups; g++)
        if (gitem[g] == i && (x = last_end(1 + g, base + t->start, is_late)) > r) r = x;
  }
  return r;
}
NOINST static void model_items(int where, long base, long lo, long hi, double* const* out, int channels) {
  for (int i = 0; i < nitems; i++) {
    item* t = &items[i];
    if (t->where != where) continue;
    long a = base + t->start, z = base + t->end;
    if (a < lo) a = lo;
    if (z > hi) z = hi;
    if (a >= z) continue;
    if (t->kind == 0) {
      for (int c = 0; c < channels; c++)
        for (long x = a; x < z; x++) out[c][x - window] += leaf_value(t->n->id, c, x - base - t->start);
    } else {
      for (int g = 0; g < ngroups; g++)
        if (gitem[g] == i) model_items(1 + g, base + t->start, a, z, out, channels);
    }
  }
}
static sp_event_t take(int k) {
  item* t = &items[k];
  if (t->kind == 0) {
    sp_event_t e;
    if (build_event(t->n, &e).id) sim_violation("unexpected-failure", "an event can not be created");
    return e;
  }
  for (int g = 0; g < ngroups; g += 1)
    if (gitem[g] == k) return gevents[g];
  sim_violation("crash-in-checker", "no such group");
}
static void new_group(int parallel) {
  sp_declare_event(e);
  sp_event_t* ep = &e;
  if (parallel) { sp_group_parallel_event(ep); }
  else { sp_group_event(ep); }
  gevents[ngroups] = e;
  gitem[ngroups] = nitems;
  gend[ngroups] = 0;
  items[nitems].kind = 1;
  items[nitems].where = -1;
  items[nitems].parallel = parallel;
  nitems++;
  ngroups++;
}
NOINST static int pick_item(int where, int only_leaf) {
  int c = 0, pick;
  for (int i = 0; i < nitems; i++) c += items[i].where == where && !(only_leaf && items[i].kind);
  if (!c) return -1;
  pick = OP(c);
  for (int i = 0; i < nitems; i++)
    if (items[i].where == where && !(only_leaf && items[i].kind) && !pick--) return i;
  return -1;
}
void scen_list_history(void) {
  sp_event_list_t *list = 0, *el;
  sp_event_t e;
  sp_block_t b, sub;
  status_t s;
  double *want[CHL], *pattern[CHL];
  sp_sample_t* out[CHL];
  u32 cuts[600], ncuts, end, i, ch, nops, op, outn;
  int workers, par = OP(3) == 2, faulty, k, g, dest, channels = 1 + OP(CHL), fired, in_time;
  workers = par || OP(3) == 2 ? 1 + OP(3) : 0;
  sim_faults_setup(FM_WAKE | FM_SLEEP | FM_HEAP | FM_ALLOC);
  lib_init(workers, CHL, 50);
  faulty = OP(2);
  nitems = ngroups = 0;
  tree_reset_history();
  late = 0;
  if (OP(6) == 5) {
    static const u32 times[] = { 65536, 1u << 24, 0x7ffffff0u, 0x80000000u, 0xffffffffu - 8000 };
    late = times[OP(5)];
    PROBE(late_times);
  }
  nops = OP(30) == 29 ? OPR(40, 120) : OPR(1, 40);
  sim_desc("%u operations%s, %d workers, %s", nops, faulty ? " with failing allocations" : "", workers, par ? "parallel" : "sequential");
  for (op = 0; op < nops && nitems < MAXL; op += 1) {
    int what = OP(10);
    if (what >= 8 && ngroups < MAXG) {
      new_group(workers && OP(2));
      continue;
    }
    if (what == 7 && !sp_event_list_remove) continue;
    if (what == 7) { /* remove */
      dest = OP(ngroups + 1);
      if (dest && items[gitem[dest - 1]].where != -1) dest = 0;
      sp_event_list_t** l = dest ? sp_group_event_list((&gevents[dest - 1])) : &list;
      int n = count_in(dest);
      if (!n) continue;
      el = *l;
      for (n = OP(n); n && el && el->next; n -= 1) el = el->next;
      if (!el) sim_violation("broken-list", "a list is empty but should have %d events", count_in(dest));
      for (k = 0; k < nitems; k += 1)
        if (items[k].where == dest && items[k].kind == 0 && el->event.config == items[k].n) break;
      if (k == nitems) continue; /* a group: cannot be identified */
      PROBE(list_remove);
      sim_trace("remove event %d", items[k].n->id);
      sp_event_list_remove(l, el);
      item_gone(k, "being removed");
      check_list(*l, dest, "after a removal");
      continue;
    }
    /* add or append something to the list or a group */
    dest = OP(ngroups + 1);
    if (dest && items[gitem[dest - 1]].where != -1) dest = 0; /* already part of something */
    if (what == 6) {
      k = -1;
      for (g = 0; g < ngroups; g += 1)
        if (items[gitem[g]].where == -1 && g != dest - 1 && gend[g]) k = gitem[g];
      if (k < 0) continue;
    } else {
      u32 dur = OPR(1, 12);
      items[nitems].kind = 0;
      items[nitems].where = -1;
      items[nitems].n = make_leaf(dur, 0);
      items[nitems].end = dur;
      k = nitems++;
      if (OP(4) == 3 && items[k].n->has_prepare && dest) items[k].n->eager = 1;
    }
    item* t = &items[k];
    int append = dest && OP(3) == 2;
    u32 onset = t->kind == 0 && t->n->eager ? 0 : OP(3) ? OP(20) : 4 * OP(3);
    if (late) {
      int own = 0;
      for (g = 0; t->kind && g < ngroups; g += 1)
        if (gitem[g] == k) own = gend[g] >= late;
      if (append && gend[dest - 1] >= late) {
        if (own) append = 0;
        else own = 1;
      }
      if (!own && !(t->kind == 0 && t->n->eager) && OP(3) == 1) onset += late;
    }
    e = take(k);
    g = -1;
    if (t->kind) {
      for (g = 0; gitem[g] != k; g += 1) {}
      if (e.end != gend[g]) sim_violation("wrong-end", "the end of a group is %u instead of %u", e.end, gend[g]);
    }
    in_time = 0;
    if (!append || OP(4) == 3) {
      /* the duration can be given when scheduling */
      if (t->kind == 0 && !t->n->eager && OP(3) == 2) {
        e.end = 0;
        e = sp_event_schedule(e, onset, t->n->dur, 0);
      } else if (t->kind == 0 && OP(4) == 3) {
        e.config = 0;
        e = sp_event_schedule(e, onset, 0, t->n);
      } else e = sp_event_schedule(e, onset, 0, 0);
      in_time = 1;
    }
    t->start = in_time ? onset : 0;
    t->end = t->start + (t->kind ? gend[g] : t->n->dur);
    if (append) {
      t->start += gend[dest - 1];
      t->end += gend[dest - 1];
    }
    for (i = 0; i < (u32)nitems; i += 1)
      if ((int)i != k && items[i].where == dest && items[i].start == t->start) PROBE(list_ties);
    if (append) PROBE(group_append);
    sim_trace("%s item %d (start %u end %u) to %d", append ? "append" : "add", k, t->start, t->end, dest);
    fired = sim_alloc_faults_fired();
    if (faulty) sim_faults_on();
    s = !dest ? sp_event_list_add(&list, e) : append ? sp_group_append(&gevents[dest - 1], e) : sp_group_add(&gevents[dest - 1], e);
    sim_faults_off();
    if (s.id) {
      check_status_shape(s, "adding an event");
      if (sim_alloc_faults_fired() == fired) sim_violation("unexpected-failure", "adding an event failed with %d without a fault", s.id);
      PROBE(list_add_failed);
      if (!dest) { /* still belongs to the caller */
        if (t->kind == 0 && t->n->freed) sim_violation("lifecycle", "event %d was freed although adding it to the list failed", t->n->id);
        check_list(list, 0, "after adding an event failed");
        if (OP(2)) {
          s = sp_event_list_add(&list, e);
          if (s.id) sim_violation("unexpected-failure", "adding an event again failed with %d", s.id);
          t->where = 0;
        } else {
          sp_event_free(e);
          item_gone(k, "adding it to the list failed");
        }
      } else {
        item_gone(k, "adding it to a group failed");
        if (gevents[dest - 1].end != gend[dest - 1]) sim_violation("wrong-end", "the end of a group changed from %u to %u although adding failed", gend[dest - 1], gevents[dest - 1].end);
        check_list(*sp_group_event_list((&gevents[dest - 1])), dest, "after adding an event failed");
      }
      continue;
    }
    if (sim_alloc_faults_fired() != fired) PROBE(op_succeeded_under_faults);
    t->where = dest;
    if (dest) {
      if (t->end > gend[dest - 1]) gend[dest - 1] = t->end;
      if (gevents[dest - 1].end != gend[dest - 1]) sim_violation("wrong-end", "the end of a group is %u instead of %u", gevents[dest - 1].end, gend[dest - 1]);
    }
    check_list(dest ? *sp_group_event_list((&gevents[dest - 1])) : list, dest, "after adding an event");
  }
  /* groups that have not been put anywhere go to the list */
  for (g = 0; g < ngroups; g += 1) {
    k = gitem[g];
    if (items[k].where != -1) continue;
    if (OP(8) == 7) {
      sp_event_free(gevents[g]);
      item_gone(k, "its group was freed");
      continue;
    }
    u32 onset = OP(20);
    if (late && gend[g] < late && OP(2)) onset += late;
    e = sp_event_schedule(gevents[g], onset, 0, 0);
    if (sp_event_list_add(&list, e).id) sim_violation("unexpected-failure", "adding a group failed without a fault");
    items[k].start = onset;
    items[k].end = onset + gend[g];
    items[k].where = 0;
  }
  check_list(list, 0, "before rendering");
  sp_seq_events_prepare(&list);
  for (int part = 0; part < 2; part += 1) {
    u32 first = part ? late : 0;
    end = last_end(0, 0, part);
    if (part && !end) break;
    if (!end) end = 1;
    outn = end + OP(6) - first;
    ncuts = gen_cuts(first, first + outn, cuts, 600);
    b.channel_count = channels;
    b.size = outn;
    for (ch = 0; ch < (u32)channels; ch += 1) {
      want[ch] = out_alloc(outn);
      pattern[ch] = out_alloc(outn);
      fill_pattern(pattern[ch], outn, ch);
      out[ch] = harness_malloc(sizeof(double) * outn);
      memcpy(out[ch], pattern[ch], sizeof(double) * outn);
      memcpy(want[ch], pattern[ch], sizeof(double) * outn);
      b.samples[ch] = out[ch];
    }
    window = first;
    model_items(0, 0, first, (long)first + outn, want, channels);
    for (i = 0; i + 1 < ncuts; i += 1) {
      sub = sp_block_with_offset(b, cuts[i] - first);
      sub.size = cuts[i + 1] - cuts[i];
      empty_range = cuts[i] == cuts[i + 1];
      s = par ? sp_seq_parallel(cuts[i], cuts[i + 1], sub, &list) : sp_seq(cuts[i], cuts[i + 1], sub, &list);
      empty_range = 1;
      if (s.id) sim_violation("unexpected-failure", "rendering failed with %d without a fault", s.id);
    }
    for (ch = 0; ch < (u32)channels; ch += 1) {
      compare("wrong-sound", out[ch], want[ch], outn, 0, part ? "the late scheduled events" : "the scheduled events", ch);
      sim_hash_bytes(out[ch], sizeof(double) * outn);
      sim_free(out[ch]);
    }
  }
  sp_event_list_free(&list);
  for (k = 0; k < nitems; k += 1)
    if (items[k].kind == 0 && items[k].n->created && items[k].n->freed != 1) sim_violation("lifecycle", "event %d was freed %u times", items[k].n->id, items[k].n->freed);
  if (nitems > 3) sim_nontrivial();
  lib_end("after a history of list operations");
}

/* ---------- memory registered with events ---------- */
static u32 reg_next, reg_calls, reg_bad;
static u8 reg_done[6000];
static u32 reg_ids[6000]; /* order in which they were registered */
static u32 reg_count;
typedef struct {
  u32 id;
  u32 magic;
} reg_mem;
NOINST static void rec_release(reg_mem* m) {
  if (m->magic != 0x5eed1234) sim_violation("registration", "a handler is called with an address that was not registered");
  if (reg_done[m->id]++) sim_violation("registration", "the handler of address %u is called twice", m->id);
  if (reg_calls >= reg_count || reg_ids[reg_calls] != m->id) sim_violation("registration", "the handler of address %u is called at position %u", m->id, reg_calls);
  reg_calls++;
}
static void reg_handler(void* p) {
  reg_mem* m = p;
  rec_release(m);
  m->magic = 0;
  free(m);
}
static void* kept[6000];
static u32 nkept;
static void no_handler(void* p) {
  reg_mem* m = p;
  rec_release(m);
  kept[nkept++] = p;
}
static void release_kept(void) {
  while (nkept) sim_free(kept[--nkept]);
}
static reg_mem* reg_new(void) {
  reg_mem* m = harness_malloc(sizeof *m);
  m->id = reg_next++;
  m->magic = 0x5eed1234;
  return m;
}
static status_t own_prepare(sp_event_t* e) {
  status_declare;
  (void)e;
  status_return;
}
static void own_free(sp_event_t* e) {
  e->free = 0;
  sp_event_memory_free(e);
}
typedef struct {
  u32 words[33];
} blob;
static status_t alloc_one(sp_event_t* e, int kind, u32 n, void** out, u64* size) {
  status_declare;
  sp_sample_t* s = 0;
  sp_time_t* t = 0;
  u32* m = 0;
  blob* bl = 0;
  sp_sample_t px[1], py[3] = { 1, 10, 5 }, ex[1] = { 0.5 };
  px[0] = n / 2;
  switch (kind) {
  case 0:
    sp_event_malloc_srq(e, n * 4, &m);
    *out = m, *size = n * sizeof *m;
    break;
  case 1:
    sp_event_samples_srq(e, n, &s);
    *out = s, *size = n * sizeof *s;
    break;
  case 2:
    sp_event_times_srq(e, n, &t);
    *out = t, *size = n * sizeof *t;
    break;
  case 3:
    sp_event_path_samples3_srq(e, &s, n, n / 2, 0, 1, 0);
    *out = s, *size = n * sizeof *s;
    break;
  case 4:
    sp_event_path_times3_srq(e, &t, n, n / 2, 0, 10, 5);
    *out = t, *size = n * sizeof *t;
    break;
  case 5:
    sp_event_envelope_zero3_srq(e, &s, n, 0.5, 1);
    *out = s, *size = n * sizeof *s;
    break;
  case 6:
    sp_event_envelope_scaled3_srq(e, &t, n, 2, 0.5, 1, 5, 2);
    *out = t, *size = n * sizeof *t;
    break;
  case 7:
    sp_event_malloc_type_n_srq(e, n, u32, &m);
    *out = m, *size = n * sizeof *m;
    break;
  case 8:
    sp_event_samples_srq(e, n + 1, &s);
    *out = s, *size = n * sizeof *s;
    break;
  case 9:
    sp_event_path_samples4_srq(e, &s, n, n / 3, n / 2, 0, 1, 2, 0);
    *out = s, *size = n * sizeof *s;
    break;
  case 10:
    sp_event_path_samples_c3_srq(e, &s, n, n / 2, 0, 1, 2, 0.1, 0.2);
    *out = s, *size = n * sizeof *s;
    break;
  case 11:
    sp_event_envelope_zero_c3_srq(e, &s, n, 0.5, 1, 0.1, 0.1);
    *out = s, *size = n * sizeof *s;
    break;
  case 12:
    sp_event_path_times_c3_srq(e, &t, n, n / 2, 1, 10, 2, 0.1, 0.2);
    *out = t, *size = n * sizeof *t;
    break;
  case 13:
    sp_event_envelope_zero4_srq(e, &s, n, 0.2, 0.3, 1, 0.5);
    *out = s, *size = n * sizeof *s;
    break;
  case 14:
    sp_event_path_samples5_srq(e, &s, n, n / 4, n / 3, n / 2, 0, 1, 2, 3, 0);
    *out = s, *size = n * sizeof *s;
    break;
  case 15:
    sp_event_path_times4_srq(e, &t, n, n / 3, n / 2, 0, 10, 20, 5);
    *out = t, *size = n * sizeof *t;
    break;
  case 16:
    sp_event_path_times5_srq(e, &t, n, n / 4, n / 3, n / 2, 0, 10, 20, 30, 5);
    *out = t, *size = n * sizeof *t;
    break;
  case 17:
    sp_event_path_samples_c4_srq(e, &s, n, n / 3, n / 2, 0, 1, 2, 0, 0.1, 0.2, 0.1);
    *out = s, *size = n * sizeof *s;
    break;
  case 18:
    sp_event_path_samples_c5_srq(e, &s, n, n / 4, n / 3, n / 2, 0, 1, 2, 3, 0, 0.1, 0.2, 0.1, 0.2);
    *out = s, *size = n * sizeof *s;
    break;
  case 19:
    sp_event_path_times_c4_srq(e, &t, n, n / 3, n / 2, 0, 10, 20, 5, 0.1, 0.2, 0.1);
    *out = t, *size = n * sizeof *t;
    break;
  case 20:
    sp_event_path_times_c5_srq(e, &t, n, n / 4, n / 3, n / 2, 0, 10, 20, 30, 5, 0.1, 0.2, 0.1, 0.2);
    *out = t, *size = n * sizeof *t;
    break;
  case 21:
    sp_event_envelope_zero5_srq(e, &s, n, 0.2, 0.2, 0.3, 1, 0.5, 0.7);
    *out = s, *size = n * sizeof *s;
    break;
  case 22:
    sp_event_envelope_zero_c4_srq(e, &s, n, 0.2, 0.3, 1, 0.5, 0.1, 0.2, 0.1);
    *out = s, *size = n * sizeof *s;
    break;
  case 23:
    sp_event_envelope_zero_c5_srq(e, &s, n, 0.2, 0.2, 0.3, 1, 0.5, 0.7, 0.1, 0.2, 0.1, 0.2);
    *out = s, *size = n * sizeof *s;
    break;
  case 24:
    sp_event_envelope_scaled4_srq(e, &t, n, 2, 0.2, 0.3, 1, 5, 2, 3);
    *out = t, *size = n * sizeof *t;
    break;
  case 25:
    sp_event_envelope_scaled5_srq(e, &t, n, 2, 0.2, 0.2, 0.3, 1, 5, 2, 3, 4);
    *out = t, *size = n * sizeof *t;
    break;
  case 26:
    sp_event_path_samples_srq(e, &s, n, 3, px, py, 0);
    *out = s, *size = n * sizeof *s;
    break;
  case 27:
    sp_event_path_times_srq(e, &t, n, 3, px, py, 0);
    *out = t, *size = n * sizeof *t;
    break;
  case 28:
    sp_event_envelope_zero_srq(e, &s, n, 3, ex, py, 0);
    *out = s, *size = n * sizeof *s;
    break;
  case 29:
    sp_event_envelope_scaled_srq(e, &t, n, 3, 2, ex, py, 0);
    *out = t, *size = n * sizeof *t;
    break;
  case 30:
    sp_event_malloc_type_srq(e, blob, &bl);
    *out = bl, *size = sizeof *bl;
    break;
  }
exit:
  status_return;
}
void scen_event_memory(void) {
  sp_declare_event(e);
  sp_event_t* ep = &e;
  sp_event_t child, copy;
  sp_event_list_t* list = 0;
  sp_wave_event_config_t* wave = 0;
  sp_map_event_config_t* map = 0;
  status_t s;
  u32 nops = OPR(1, 30), op, reserved = 0, fired, n, i;
  int kind = OP(7), faulty, use_list, burst;
  void* p;
  reg_mem* m;
  sim_faults_setup(FM_ALLOC | FM_HEAP);
  lib_init(OP(4) == 3 ? 1 : 0, CHL, 50);
  reg_next = reg_calls = reg_count = 0;
  memset(reg_done, 0, sizeof reg_done);
  tree_reset_history();
  faulty = OP(3) != 0;
  burst = OP(30) == 7; /* many more registrations than usual */
  switch (kind) {
  case 0: break; /* plain event: gets its free function from the first registration */
  case 1:
    e.prepare = own_prepare;
    e.free = own_free;
    break;
  case 2: { sp_group_event(ep); } break;
  case 3: { sp_group_parallel_event(ep); } break;
  case 4:
    if (sp_wave_event_config_new(&wave).id) sim_violation("unexpected-failure", "no wave configuration");
    sp_wave_event(ep, wave);
    break;
  case 5:
    if (sp_map_event_config_new(&map).id) sim_violation("unexpected-failure", "no map configuration");
    build_event(make_leaf(4, 0), &child);
    map->event = child;
    sp_map_event(ep, map);
    break;
  case 6:
    sp_group_event(ep);
    e.prepare = 0;
    break;
  }
  e.end = 10;
  sim_desc("%u operations on event type %d%s", nops, kind, faulty ? " with failing allocations" : "");
  for (op = 0; op < nops && reg_next < 3000; op += 1) {
    fired = sim_alloc_faults_fired();
    if (e.memory.data) reserved = array3_unused_size(e.memory);
    else reserved = 0;
    switch (OP(6)) {
    case 0: /* register */
      for (i = (burst && OP(3)) ? OPR(20, 700) : 1; i; i -= 1) {
        m = reg_new();
        int keep = OP(4) == 3;
        fired = sim_alloc_faults_fired();
        if (faulty) sim_faults_on();
        s = sp_event_memory_add_with_handler(&e, m, keep ? no_handler : reg_handler);
        sim_faults_off();
        sim_trace("add %u: %d", m->id, s.id);
        if (s.id) {
          if (sim_alloc_faults_fired() == fired) sim_violation("unexpected-failure", "registering memory failed without a fault");
          sim_free(m);
          PROBE(op_failed_reported);
        } else {
          reg_ids[reg_count++] = m->id;
          if (reg_count > 4) PROBE(reg_grow);
          if (reg_count > 256) PROBE(reg_many);
        }
      }
      break;
    case 1: { /* reserve */
      n = (burst && OP(3) == 1) ? OP(300) : OP(8);
      if (faulty) sim_faults_on();
      s = sp_event_memory_ensure(&e, n);
      sim_faults_off();
      sim_trace("ensure %u: %d", n, s.id);
      PROBE(reg_ensure);
      if (s.id) {
        if (sim_alloc_faults_fired() == fired) sim_violation("unexpected-failure", "reserving memory registrations failed without a fault");
      } else {
        for (i = OP(n + 1); i; i -= 1) {
          m = reg_new();
          sp_event_memory_fixed_add_with_handler(&e, m, reg_handler);
          reg_ids[reg_count++] = m->id;
        }
      }
      break;
    }
    case 2:
    case 3: { /* allocate with the event */
      int k = OP(31);
      u64 size = 0;
      n = OPR(6, 20);
      u64 before = sim_heap_mark();
      p = 0;
      if (faulty) sim_faults_on();
      s = alloc_one(&e, k, n, &p, &size);
      sim_faults_off();
      (void)before;
      sim_trace("alloc %d: %d", k, s.id);
      check_status_shape(s, "allocating event memory");
      if (s.id) {
        if (sim_alloc_faults_fired() == fired) sim_violation("unexpected-failure", "allocating memory with an event failed without a fault");
        PROBE(op_failed_reported);
      } else {
        if (!p || !sim_addressable(p, size)) sim_violation("wrong-result", "allocating memory with an event succeeded but gives no memory");
        memset(p, 0x11, size);
      }
      break;
    }
    case 4: /* events are copied when they are scheduled or added */
      copy = sp_event_schedule(e, OP(5), 0, 0);
      e = copy;
      break;
    case 5:
      if ((kind == 2 || kind == 3) && OP(2)) {
        build_event(make_leaf(3, 0), &child);
        s = sp_group_add(&e, child);
        if (s.id) sim_violation("unexpected-failure", "adding to a group failed");
      } else if (e.prepare && OP(3) == 2) {
        if ((e.prepare)(&e).id) sim_violation("unexpected-failure", "preparing failed");
        e.prepare = 0;
      }
      break;
    }
    if (reg_calls) sim_violation("registration", "a handler is called before the event is freed");
  }
  use_list = OP(3) == 2;
  if (use_list) {
    if (sp_event_list_add(&list, e).id) sim_violation("unexpected-failure", "adding to a list failed");
    sp_event_list_free(&list);
  } else {
    sp_event_free(e);
    if (OP(3) == 2) sp_event_free(e); /* free functions reset the pointer */
  }
  if (reg_calls != reg_count) sim_violation("registration", "%u addresses were registered but the handler was called for %u", reg_count, reg_calls);
  if (wave) free(wave);
  if (map) free(map);
  if (reg_count > 2) sim_nontrivial();
  /* addresses with the handler that keeps them */
  release_kept();
  lib_end("after an event with registered memory was freed");
}
