/* Random streams: division of draws into calls, sessions, seeds of concurrently prepared noise events (C20). */
#include "common.h"
#include <string.h>
#include <stdlib.h>
#include <sph-sp/random.h>

enum { D_U64, D_U64B, D_F64, D_F64B, D_U32, D_U32B, D_PM1, D_01, D_TIME, D_TIMEB, D_SAMPLE, D_SAMPLEB, D_UNIT, D_DISCRETE, D_KINDS };
#define MAXDRAW 12000
typedef struct {
  int kind, gen; /* gen 0 and 1: own generators, 2: the one of the library */
  u32 count;
  u64 range;
  double frange;
} draw;
static sp_time_t cudist[5];
static u32 ncudist;
static const char* draw_names[] = { "sph_random_u64", "sph_random_u64_bounded", "sph_random_f64", "sph_random_f64_bounded", "sph_random_u32", "sph_random_u32_bounded", "sph_random_f64_1to1", "sph_random_f64_0to1",
  "sp_time_random", "sp_time_random_bounded", "sp_sample_random", "sp_sample_random_bounded", "sp_unit_random", "sp_time_random_discrete" };
NOINST static u64 bits(double a) {
  u64 b;
  memcpy(&b, &a, 8);
  return b;
}
static u64 draw_one(const draw* d, sph_random_state_t* s) {
  switch (d->kind) {
  case D_U64: return sph_random_u64(s);
  case D_U64B: return sph_random_u64_bounded(s, d->range);
  case D_F64: return bits(sph_random_f64(s));
  case D_F64B: return bits(sph_random_f64_bounded(s, d->frange));
  case D_U32: return sph_random_u32(s);
  case D_U32B: return sph_random_u32_bounded(s, d->range);
  case D_PM1: return bits(sph_random_f64_1to1(s));
  case D_01: return bits(sph_random_f64_0to1(s));
  case D_TIME: return sp_time_random();
  case D_TIMEB: return sp_time_random_bounded(d->range);
  case D_SAMPLE: return bits(sp_sample_random());
  case D_SAMPLEB: return bits(sph_random_f64_bounded(&sp_random_state, d->frange)); /* there is no macro that compiles */
  case D_UNIT: return bits(sp_unit_random());
  default: return sp_time_random_discrete(cudist, ncudist);
  }
}
static void draw_array(const draw* d, sph_random_state_t* s, u32 n, u64* out) {
  u32 i;
  u64* a = harness_malloc(8 * n + !n);
  double* f = (double*)a;
  uint32_t* w = (uint32_t*)a;
  sp_time_t* t = (sp_time_t*)a;
  switch (d->kind) {
  case D_U64: sph_random_u64_array(s, n, a); break;
  case D_U64B: sph_random_u64_bounded_array(s, d->range, n, a); break;
  case D_F64: sph_random_f64_array(s, n, f); break;
  case D_F64B: sph_random_f64_bounded_array(s, d->frange, n, f); break;
  case D_U32: sph_random_u32_array(s, n, w); break;
  case D_U32B: sph_random_u32_bounded_array(s, d->range, n, w); break;
  case D_PM1: sph_random_f64_array_1to1(s, n, f); break;
  case D_01: sph_random_f64_array_0to1(s, n, f); break;
  case D_TIME: sp_times_random(n, t); break;
  case D_TIMEB: sp_times_random_bounded(d->range, n, t); break;
  case D_SAMPLE: sp_samples_random(n, f); break;
  case D_SAMPLEB: sp_samples_random_bounded(d->frange, n, f); break;
  case D_UNIT: sp_units_random(n, f); break;
  default: sp_times_random_discrete(cudist, ncudist, n, t); break;
  }
  for (i = 0; i < n; i += 1) {
    switch (d->kind) {
    case D_U32: case D_U32B: out[i] = w[i]; break;
    case D_TIME: case D_TIMEB: case D_DISCRETE: out[i] = t[i]; break;
    default: out[i] = a[i];
    }
  }
  sim_free(a);
}
NOINST static void check_draw(const draw* d, u64 v) {
  double f;
  memcpy(&f, &v, 8);
  int ok = 1;
  switch (d->kind) {
  case D_U64B: case D_U32B: case D_TIMEB: ok = v < d->range; break;
  case D_F64: case D_01: case D_UNIT: ok = f >= 0 && f <= 1; break;
  case D_F64B: case D_SAMPLEB: ok = f >= 0 && f <= d->frange; break;
  case D_PM1: case D_SAMPLE: ok = f >= -1 && f <= 1; break;
  case D_DISCRETE: ok = v < ncudist && cudist[v] > (v ? cudist[v - 1] : 0); break;
  }
  if (!ok) sim_violation("wrong-random", "%s returns a value outside of its range: %llx", draw_names[d->kind], (unsigned long long)v);
}
NOINST static u64 rotr(u64 x, int k) { return (x >> k) | (x << (64 - k)); }
NOINST static u64 inverse(u64 a) {
  u64 x = a;
  for (int i = 0; i < 6; i++) x *= 2 - a * x;
  return x;
}
/* word 1 of a xoshiro256** state whose next value is a */
NOINST static u64 word_for(u64 a) { return inverse(5) * rotr(inverse(9) * a, 7); }
/* the documented generators: splitmix64 for seeding, xoshiro256** for integers, xoshiro256+ for bounded floats, Lemire's debiased bounds */
NOINST static u64 ref_rotl(u64 x, int k) { return (x << k) | (x >> (64 - k)); }
NOINST static void ref_seed(u64* s, u64 seed) {
  for (int i = 0; i < 4; i++) {
    u64 z = (seed += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    s[i] = z ^ (z >> 31);
  }
}
NOINST static u64 ref_next(u64* s, int plus) {
  u64 r = plus ? s[0] + s[3] : ref_rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0];
  s[3] ^= s[1];
  s[1] ^= s[2];
  s[0] ^= s[3];
  s[2] ^= t;
  s[3] = ref_rotl(s[3], 45);
  return r;
}
NOINST static u64 ref_bounded(u64* s, u64 range) {
  u64 limit = -range % range;
  for (;;) {
    __uint128_t m = (__uint128_t)ref_next(s, 0) * range;
    if ((u64)m >= limit) return m >> 64;
  }
}
/* a sequence of draws of each kind from one generator */
static void check_generator(void) {
  static const u64 ranges[] = { 1, 2, 3, 10, 1000, (1ull << 32) + 1, (1ull << 63) + 1, 0xffffffffffffffffull, 0xaaaaaaaaaaaaaaaaull };
  u64 r[4], v, w, seed = OP(4) ? OP(5000) : ~(u64)OP(3) << OP(3) * 16;
  u32 i, n = OPR(1, 40);
  sph_random_state_t g = sph_random_state_new(seed);
  ref_seed(r, seed);
  for (i = 0; i < n; i += 1) {
    u32 kind = OP(5), e = 0;
    u64 range = OP(3) ? ranges[OP(9)] : 1 + OP(50000), limit = -range % range;
    if (kind == 1 && OP(2)) { /* the next value is at the bound below which values are rejected */
      u64 k = limit + OP(5) - 2 + OP(2) * range;
      while (!(range >> e & 1)) e += 1;
      g.data[1] = r[1] = word_for((k >> e) * inverse(range >> e));
    }
    double f = 0.5 * OPR(1, 9);
    switch (kind) {
    case 0: v = sph_random_u64(&g), w = ref_next(r, 0); break;
    case 1: v = sph_random_u64_bounded(&g, range), w = ref_bounded(r, range); break;
    case 2: v = bits(sph_random_f64(&g)), w = bits((double)(ref_next(r, 0) >> 11) / 9007199254740992.0); break;
    case 3: v = bits(sph_random_f64_bounded(&g, f)), w = bits((double)(ref_next(r, 1) >> 11) / 9007199254740992.0 * f); break;
    default: v = sph_random_u32(&g), w = ref_next(r, 0) >> 32;
    }
    if (v != w) sim_violation("wrong-random", "%s: value %u from seed %llu is %llx, the documented generator yields %llx", draw_names[kind], i, (unsigned long long)seed, (unsigned long long)v, (unsigned long long)w);
  }
}
void scen_random_draws(void) {
  static draw plan[24];
  static u64 one[MAXDRAW], many[MAXDRAW];
  sph_random_state_t g[2], after[3];
  u64 seed[2];
  u32 n = OPR(1, 20), i, k, total, sessions = OPR(1, 3), session, part, large = OP(60) == 59;
  static const u64 ranges[] = { 1, 2, 3, 10, 1000, 1u << 31, 0xfffffffful, 1ull << 33, (1ull << 63) + 1, 0xffffffffffffffffull };
  sim_faults_setup(FM_HEAP);
  if (OP(4) == 3) check_generator();
  ncudist = OPR(1, 5);
  for (i = 0; i < ncudist; i += 1) cudist[i] = (i ? cudist[i - 1] : 0) + OP(4);
  if (!cudist[ncudist - 1]) cudist[ncudist - 1] = 1;
  seed[0] = OP(5) ? OP(1000) : 0xffffffffffffffffull;
  seed[1] = OP(2) ? seed[0] : OP(1000);
  total = 0;
  for (i = 0; i < n; i += 1) {
    draw* d = plan + i;
    d->kind = OP(D_KINDS);
    d->gen = d->kind >= D_TIME ? 2 : OP(2);
    d->count = OP(8) ? OP(20) : OP(60);
    if (large && OP(2)) {
      d->count = OPR(1000, 9000);
      large = 0;
      PROBE(rng_large);
    }
    if (total + d->count > MAXDRAW) d->count = MAXDRAW - total;
    d->range = ranges[OP(d->kind == D_U64B ? 10 : 7)];
    d->frange = 0.5 * OPR(1, 9);
    total += d->count;
    sim_desc("%s%s x %u", i ? "; " : "", draw_names[d->kind], d->count);
  }
  for (session = 0; session < sessions; session += 1) {
    u32 rate = draw_rate(OPR(8, 96)), channels = OPR(1, CHL), pos = 0;
    lib_init(OP(4) == 3 ? OPR(1, 2) : 0, channels, rate);
    /* one by one. the generators take turns as planned */
    g[0] = sp_random_state_new(seed[0]);
    g[1] = sp_random_state_new(seed[1]);
    sp_random_state_t start = sp_random_state;
    for (i = 0; i < n; i += 1)
      for (k = 0; k < plan[i].count; k += 1) {
        u64 v = draw_one(plan + i, g + (plan[i].gen & 1));
        check_draw(plan + i, v);
        if (session && v != one[pos]) sim_violation("wrong-random", "%s: value %u of the sequence differs in session %u", draw_names[plan[i].kind], pos, session);
        one[pos++] = v;
        sim_hash_u64(v);
      }
    after[0] = g[0];
    after[1] = g[1];
    after[2] = sp_random_state;
    /* in arrays, from the same states. the draws of each generator stay in order */
    g[0] = sp_random_state_new(seed[0]);
    g[1] = sp_random_state_new(seed[1]);
    sp_random_state = start;
    int by_gen = OP(2), gen;
    for (gen = by_gen ? 0 : -1; gen < (by_gen ? 3 : 0); gen += 1) {
      for (i = pos = 0; i < n; pos += plan[i].count, i += 1) {
        if (gen >= 0 && plan[i].gen != gen) continue;
        for (k = 0; k < plan[i].count; k += part) {
          part = OP(3) ? 1 + OP(plan[i].count - k) : plan[i].count - k;
          if (OP(5) == 4) draw_array(plan + i, g + (plan[i].gen & 1), 0, many);
          draw_array(plan + i, g + (plan[i].gen & 1), part, many + pos + k);
        }
      }
    }
    for (i = pos = 0; i < n; i += 1)
      for (k = 0; k < plan[i].count; k += 1, pos += 1)
        if (one[pos] != many[pos]) sim_violation("wrong-random", "%s: value %u of %u drawn in arrays is %llx instead of %llx drawn one by one", draw_names[plan[i].kind], k, plan[i].count, (unsigned long long)many[pos], (unsigned long long)one[pos]);
    if (memcmp(after, g, sizeof g) || memcmp(after + 2, &sp_random_state, sizeof g[0])) sim_violation("wrong-random", "drawing in arrays leaves a generator in another state than drawing one by one");
    PROBE(rng_split);
    if (OP(2)) sp_random_state = sp_random_state_new(OP(100));
    lib_end("after drawing random numbers");
  }
  if (total) sim_nontrivial();
}

/* noise events that are prepared at the same time */
#define MAXNOISE 4
#define NLEN 160
typedef struct {
  u32 start, dur, first;
  sp_noise_event_config_t config, live;
} noise;
static noise nz[MAXNOISE];
static double* solo[MAXNOISE][MAXNOISE][CHL]; /* event, seed */
static sp_sample_t* total_out[CHL];
static status_t noise_build(u32 i, sp_event_t* out) {
  status_declare;
  sp_declare_event(e);
  sp_event_t* ep = &e;
  nz[i].live = nz[i].config;
  sp_noise_event(ep, (&nz[i].live));
  e.end = nz[i].dur;
  *out = e;
  status_return;
}
/* returns zero if it used the random state in an unknown way */
static void noise_solo(u32 i, u32 seed_index, const u32* cuts, u32 ncuts) {
  sp_event_t e;
  sp_block_t b = { 0 };
  u32 k, c, x, y;
  noise_build(i, &e);
  if ((e.prepare)(&e).id) sim_violation("unexpected-failure", "a noise event can not be prepared");
  for (k = 0; k + 1 < ncuts; k += 1) {
    x = cuts[k] > nz[i].start ? cuts[k] - nz[i].start : 0;
    y = cuts[k + 1] > nz[i].start ? cuts[k + 1] - nz[i].start : 0;
    if (y > nz[i].dur) y = nz[i].dur;
    if (x >= y) continue;
    b.channel_count = CHL;
    b.size = y - x;
    for (c = 0; c < CHL; c += 1) b.samples[c] = solo[i][seed_index][c] + nz[i].start + x;
    if ((e.generate)(x, y, b, &e).id) sim_violation("unexpected-failure", "a noise event can not be generated");
  }
  sp_event_free(e);
}
NOINST static int matches(const u32* perm, u32 n, u32 len) {
  for (u32 i = 0; i < n; i++)
    for (u32 j = 0; j < n; j++)
      if (nz[i].first < nz[j].first && perm[i] > perm[j]) return 0;
  for (u32 c = 0; c < CHL; c++)
    for (u32 t = 0; t < len; t++) {
      double s = 0;
      for (u32 i = 0; i < n; i++) s += solo[i][perm[i]][c][t];
      if (fabs(s - total_out[c][t]) > 1e-9) return 0;
    }
  return 1;
}
NOINST static int find_order(u32 n, u32 len, u32* perm, u32 k, u32 used) {
  if (k == n) return matches(perm, n, len);
  for (u32 i = 0; i < n; i++) {
    if (used & (1u << i)) continue;
    perm[k] = i;
    if (find_order(n, len, perm, k + 1, used | (1u << i))) return 1;
  }
  return 0;
}
void scen_noise_seeds(void) {
  status_declare;
  u32 n, i, j, k, c, len = 0, cuts[NLEN + 2], ncuts, where, round, rounds = OPR(1, 2), perm[MAXNOISE], pre;
  double* amod;
  sp_random_state_t chain[MAXNOISE + 1], now;
  sp_event_list_t* list;
  sim_faults_setup(FM_WAKE | FM_SLEEP | FM_HEAP);
  lib_init(OPR(1, 4), CHL, 24 + 24 * OP(2));
  amod = harness_malloc(sizeof(double) * NLEN);
  for (i = 0; i < NLEN; i += 1) amod[i] = 0.5 + (i % 4) * 0.125;
  for (c = 0; c < CHL; c += 1) {
    total_out[c] = harness_malloc(sizeof(double) * NLEN);
    for (i = 0; i < MAXNOISE; i += 1)
      for (j = 0; j < MAXNOISE; j += 1) solo[i][j][c] = harness_malloc(sizeof(double) * NLEN);
  }
  for (round = 0; round < rounds; round += 1) {
    n = OPR(2, MAXNOISE);
    where = OP(3);
    len = 0;
    for (i = 0; i < n; i += 1) {
      sp_noise_event_config_t* w = &nz[i].config;
      nz[i].start = OP(3) == 2 ? OP(12) : 0;
      nz[i].dur = OPR(1, 24);
      if (nz[i].start + nz[i].dur > len) len = nz[i].start + nz[i].dur;
      *w = sp_noise_event_config_defaults();
      w->channel_count = OPR(1, CHL);
      w->resolution = OPR(1, 16);
      for (c = 0; c < w->channel_count; c += 1) {
        sp_noise_event_channel_config_t* cc = w->channel_config + c;
        cc->use = 1;
        cc->amp = 1 + OP(3);
        cc->amod = amod + OP(8);
        cc->frq = OPR(1, sp_rate / 4);
        cc->wdt = OPR(1, sp_rate / 4);
        cc->trnl = cc->trnh = OPR(sp_rate / 6 + 1, sp_rate / 4);
      }
    }
    ncuts = gen_cuts(0, len, cuts, NLEN);
    pre = OP(4);
    for (k = 0; k < pre; k += 1) sp_time_random();
    for (i = 0; i < n; i += 1)
      for (nz[i].first = 0; nz[i].first + 1 < ncuts && cuts[nz[i].first + 1] <= nz[i].start; nz[i].first += 1) {}
    sim_desc("%s%u noise events in %s, %u blocks", round ? "; " : "", n, where == 0 ? "a list" : where == 1 ? "a parallel group" : "two parallel groups", ncuts - 1);
    /* each event alone with each seed */
    chain[0] = sp_random_state;
    for (k = 0; k < n; k += 1) {
      for (i = 0; i < n; i += 1) {
        sp_random_state = chain[k];
        for (c = 0; c < CHL; c += 1) memset(solo[i][k][c], 0, sizeof(double) * NLEN);
        noise_solo(i, k, cuts, ncuts);
        if (!i) chain[k + 1] = sp_random_state;
        else if (memcmp(chain + k + 1, &sp_random_state, sizeof now)) sim_violation("wrong-random", "a noise event takes other amounts from the random state than another one");
      }
    }
    sp_random_state = chain[0];
    /* together */
    list = 0;
    if (where == 0) {
      for (i = 0; i < n; i += 1) {
        sp_event_t e;
        noise_build(i, &e);
        e = sp_event_schedule(e, nz[i].start, 0, 0);
        status = sp_event_list_add(&list, e);
        if (status_is_failure) sim_violation("unexpected-failure", "an event can not be added");
      }
    } else {
      sp_event_t g[2];
      for (k = 0; k < where; k += 1) {
        sp_declare_event(group);
        sp_event_t* gp = &group;
        sp_group_parallel_event(gp);
        for (i = k; i < n; i += where) {
          sp_event_t e;
          noise_build(i, &e);
          e = sp_event_schedule(e, nz[i].start, 0, 0);
          status = sp_group_add(gp, e);
          if (status_is_failure) sim_violation("unexpected-failure", "an event can not be added");
        }
        g[k] = group;
        status = sp_event_list_add(&list, g[k]);
        if (status_is_failure) sim_violation("unexpected-failure", "a group can not be added");
      }
    }
    sp_seq_events_prepare(&list);
    for (c = 0; c < CHL; c += 1) memset(total_out[c], 0, sizeof(double) * NLEN);
    for (k = 0; k + 1 < ncuts; k += 1) {
      sp_block_t b = { 0 };
      b.channel_count = CHL;
      b.size = cuts[k + 1] - cuts[k];
      for (c = 0; c < CHL; c += 1) b.samples[c] = total_out[c] + cuts[k];
      status = sp_seq_parallel(cuts[k], cuts[k + 1], b, &list);
      if (status_is_failure) sim_violation("unexpected-failure", "rendering noise fails with %d", status.id);
    }
    sp_event_list_free(&list);
    if (memcmp(chain + n, &sp_random_state, sizeof now)) sim_violation("wrong-random", "%u noise events prepared at the same time leave the random state where no sequential preparation leaves it", n);
    if (!find_order(n, len, perm, 0, 0)) sim_violation("wrong-random", "the sound of %u noise events prepared at the same time is not the one of any order of preparing them", n);
    for (i = 0; i < n; i += 1) sim_hash_u64(perm[i]);
    for (i = 0; i < n && perm[i] == i; i += 1) {}
    if (i < n) PROBE(noise_concurrent_seed);
  }
  sim_free(amod);
  for (c = 0; c < CHL; c += 1) {
    sim_free(total_out[c]);
    for (i = 0; i < MAXNOISE; i += 1)
      for (j = 0; j < MAXNOISE; j += 1) sim_free(solo[i][j][c]);
  }
  if (sim_switches() > 4) sim_nontrivial();
  lib_end("after rendering noise");
}

/* contracts of random operations for every state of the generator, also states that yield extreme values next (C23) */
NOINST static u64 extreme(void) {
  static const u64 v[] = { 0, ~0ull, 1ull << 63, (1ull << 63) - 1, 0xffffffff00000000ull, 0xffffffffull, 1ull << 32, ~0ull << 11 };
  return OP(3) ? v[OP(8)] : OP(1 << 20) * 0x9e3779b97f4a7c15ull;
}
NOINST static sp_random_state_t draw_state(int* crafted) {
  sp_random_state_t s = sp_random_state_new(OP(4) ? OP(1 << 20) : ~0u - OP(4));
  *crafted = 0;
  switch (OP(4)) {
  case 1: { /* the next three values */
    u64 v0 = word_for(extreme()), v1 = word_for(extreme()), v2 = word_for(extreme()), t = v0 << 17, s2a;
    s.data[1] = v0;
    s2a = v1 ^ v0; /* s2 ^ s0 */
    s.data[2] = s2a ^ s.data[0];
    /* v2 = v1 ^ (s2a ^ t) ^ s0', s0' = s0 ^ s3 ^ v0 */
    s.data[3] = v2 ^ v1 ^ s2a ^ t ^ s.data[0] ^ v0;
    *crafted = 1;
    break;
  }
  case 2: /* the next value of the generator for fractions */
    s.data[3] = extreme() - s.data[0];
    *crafted = 1;
    break;
  }
  return s;
}
NOINST static void contract(int ok, const char* what, u64 v, u64 limit) {
  if (!ok) sim_violation("wrong-choice", "%s: value %llu, limit %llu", what, (unsigned long long)v, (unsigned long long)limit);
}
static u32 swap_limit;
static void swap_u16(void* a, sp_size_t i, sp_size_t j) {
  u16 *b = a, t;
  if (i >= swap_limit || j >= swap_limit) sim_violation("wrong-choice", "a shuffle of %u elements exchanges elements %lu and %lu", swap_limit, (unsigned long)i, (unsigned long)j);
  t = b[i];
  b[i] = b[j];
  b[j] = t;
}
/* how often has everything that can be chosen to be chosen, so that missing it is practically impossible */
#define ENOUGH 600
/* many elements. where all of many independent choices would have to be the same, the contract is that they are not */
static void large_contracts(void) {
  u32 kind = OP(4), n = OP(3) ? OPR(300, 6000) : OPR(65500, 70000), m = OPR(257, 700), i, k, moved;
  sp_time_t *a = out_alloc(n), *b = out_alloc(n), *c = out_alloc(m), size;
  u8* used = (u8*)out_alloc(n / 8 + m);
  memset(used, 0, n + m);
  sp_random_state = sp_random_state_new(OP(1 << 20));
  sim_desc("%u of %u and %u", kind, n, m);
  PROBE(random_many);
  switch (kind) {
  case 0: /* all elements are kept and the last ones take part */
    for (i = 0; i < n; i += 1) a[i] = i;
    sp_times_shuffle(a, n);
    for (i = moved = 0; i < n; i += 1) {
      contract(a[i] < n && !used[a[i]], "sp_times_shuffle lost an element", i, n);
      used[a[i]] = 1;
      if (i + 40 >= n && a[i] != i) moved += 1;
    }
    contract(moved, "sp_times_shuffle never moves the last elements", moved, n);
    break;
  case 1:
    for (i = 0; i < m; i += 1) c[i] = 3 * (i + 1);
    sp_times_random_discrete(c, m, n, b);
    for (i = moved = k = 0; i < n; i += 1) {
      contract(b[i] < m, "sp_times_random_discrete returns something impossible", b[i], m);
      if (b[i] >= m / 2) moved += 1;
      if (i + 40 >= n && b[i]) k += 1;
    }
    contract(moved && k, "sp_times_random_discrete never returns what is possible", moved, k);
    for (i = moved = 0; i < 100; i += 1) {
      size = sp_time_random_discrete(c, m);
      contract(size < m, "sp_time_random_discrete returns something impossible", size, m);
      if (size >= m / 2) moved += 1;
    }
    contract(moved, "sp_time_random_discrete never returns what is possible", moved, m);
    break;
  case 2:
    for (i = 0; i < n; i += 1) b[i] = 2;
    if (sp_times_random_binary(n, b).id) sim_violation("unexpected-failure", "sp_times_random_binary fails");
    for (i = moved = 0; i < n; i += 1) {
      contract(b[i] <= 1, "sp_times_random_binary", b[i], 1);
      if (i + 64 >= n) moved += b[i];
    }
    contract(moved && moved < 64, "sp_times_random_binary always gives the same at the end", moved, n);
    for (i = 0; i < n; i += 1) a[i] = 7 + 3 * i;
    sp_times_select_random(a, n, b, &size);
    contract(size <= n, "sp_times_select_random selects too many", size, n);
    for (i = k = moved = 0; i < size; i += 1) {
      while (k < n && a[k] != b[i]) k += 1;
      contract(k < n, "sp_times_select_random does not select elements in their order", i, size);
      if (k + 64 >= n) moved += 1;
      k += 1;
    }
    contract(moved && moved < 64, "sp_times_select_random always selects the same at the end", moved, n);
    break;
  case 3:
    for (i = 0; i < m; i += 1) c[i] = i + 1;
    k = OP(2) ? m : m / 2;
    sp_times_random_discrete_unique(c, m, k, b);
    for (i = 0; i < k; i += 1) {
      contract(b[i] < m && !used[b[i]], "sp_times_random_discrete_unique returns a value twice", b[i], m);
      used[b[i]] = 1;
    }
    break;
  }
  sim_hash_bytes(&sp_random_state, sizeof sp_random_state);
}
void scen_random_contracts(void) {
  u32 rounds = OPR(1, 6), r, i, k, n, m, kind, nz, repeat;
  u64 seen, all;
  int crafted;
  status_t st;
  sim_faults_setup(FM_HEAP | FM_ALLOC);
  lib_init(0, 1, 50);
  if (OP(60) == 59) large_contracts();
  for (r = 0; r < rounds; r += 1) {
    kind = OP(10);
    n = OP(16) ? OPR(1, 40) : 0;
    m = OPR(1, 12);
    sp_random_state = draw_state(&crafted);
    sim_desc("%s%u%s n %u", r ? "; " : "", kind, crafted ? "!" : "", n);
    u64 mark = sim_heap_mark();
    sp_time_t *a = harness_malloc(sizeof(sp_time_t) * n), *b = harness_malloc(sizeof(sp_time_t) * n), *c = harness_malloc(sizeof(sp_time_t) * m), size;
    sp_sample_t* s = harness_malloc(sizeof(sp_sample_t) * (n + 1));
    u8 used[64];
    for (i = 0; i < n; i += 1) a[i] = 1000 + i * 3;
    /* a distribution that has impossible elements */
    for (i = nz = 0; i < m; i += 1) {
      k = OP(3);
      c[i] = (i ? c[i - 1] : 0) + k;
      if (k) nz += 1;
    }
    if (!c[m - 1]) c[m - 1] = nz = 1;
    repeat = crafted || OP(4) ? 1 : ENOUGH;
    if (repeat > 1) PROBE(random_exhausted);
    seen = 0;
    switch (kind) {
    case 0: /* bounded */
      k = OP(3) ? m : OP(2) ? 0xffffffffu - OP(3) : 1u << OP(32);
      all = k <= 12 ? (1ull << k) - 1 : 0;
      for (i = 0; i < repeat; i += 1) {
        size = sp_time_random_bounded(k);
        contract(size < k, "sp_time_random_bounded", size, k);
        if (all) seen |= 1ull << size;
      }
      if (repeat > 1 && all) contract(seen == all, "sp_time_random_bounded never returns some values", seen, all);
      sp_times_random_bounded(k, n, b);
      for (i = 0; i < n; i += 1) contract(b[i] < k, "sp_times_random_bounded", b[i], k);
      break;
    case 1:
      sp_units_random(n, s);
      for (i = 0; i < n; i += 1) contract(s[i] >= 0 && s[i] <= 1, "sp_units_random", i, n);
      sp_samples_random(n, s);
      for (i = 0; i < n; i += 1) contract(s[i] >= -1 && s[i] <= 1, "sp_samples_random", i, n);
      sp_samples_random_bounded(2.5, n, s);
      for (i = 0; i < n; i += 1) contract(s[i] >= 0 && s[i] <= 2.5, "sp_samples_random_bounded", i, n);
      s[0] = sp_unit_random();
      contract(s[0] >= 0 && s[0] <= 1, "sp_unit_random", 0, 1);
      s[0] = sp_sample_random();
      contract(s[0] >= -1 && s[0] <= 1, "sp_sample_random", 0, 1);
      break;
    case 2: /* shuffles keep all elements */
    case 3:
      if (repeat > 1 && n > 4) n = 1 + n % 4;
      all = 0;
      for (k = 0; k < repeat; k += 1) {
        u64 code = 0;
        for (i = 0; i < n; i += 1) {
          b[i] = a[i];
          s[i] = a[i] * 1.25;
        }
        if (kind == 2) sp_times_shuffle(b, n);
        else sp_samples_shuffle(s, n);
        memset(used, 0, sizeof used);
        for (i = 0; i < n; i += 1) {
          double x = kind == 2 ? b[i] : s[i] / 1.25;
          u32 at = x >= 1000 && x < 1000 + n * 3 ? ((u32)x - 1000) / 3 : n;
          contract(at < n && x == a[at] && !used[at], kind == 2 ? "sp_times_shuffle lost an element" : "sp_samples_shuffle lost an element", i, n);
          used[at] = 1;
          code = code * 4 + (at & 3);
        }
        if (repeat > 1) { /* at most 24 different ones */
          static u64 codes[24];
          for (i = 0; i < all && codes[i] != code; i += 1) {}
          if (i == all && all < 24) codes[all++] = code;
        }
      }
      if (repeat > 1) {
        static const u32 fact[] = { 1, 1, 2, 6, 24 };
        contract(all == fact[n], "some orders never result from shuffling", all, fact[n]);
      }
      break;
    case 4: { /* any element type */
      u16* w = harness_malloc(2 * n);
      for (i = 0; i < n; i += 1) w[i] = i;
      swap_limit = n;
      sp_shuffle(swap_u16, w, n);
      memset(used, 0, sizeof used);
      for (i = 0; i < n; i += 1) {
        contract(w[i] < n && !used[w[i]], "sp_shuffle lost an element", i, n);
        used[w[i]] = 1;
      }
      sim_free(w);
      break;
    }
    case 5: /* bits */
      if (OP(3) == 2) n = 32;
      if (n > 40) n = 40;
      sim_free(b);
      b = harness_malloc(sizeof(sp_time_t) * n);
      seen = all = 0;
      if (repeat > 1) repeat = 100;
      for (k = 0; k < repeat; k += 1) {
        sim_faults_on();
        st = sp_times_random_binary(n, b);
        sim_faults_off();
        if (st.id) {
          if (!sim_alloc_faults_fired() || !status_is_memory(st)) sim_violation("unexpected-failure", "sp_times_random_binary fails with %d", st.id);
          repeat = 1;
          break;
        }
        for (i = 0; i < n; i += 1) {
          contract(b[i] <= 1, "sp_times_random_binary", b[i], 1);
          if (b[i]) seen |= 1ull << i;
          else all |= 1ull << i;
        }
      }
      if (repeat > 1) contract((seen & all) == (1ull << n) - 1, "sp_times_random_binary never changes some values", seen & all, (1ull << n) - 1);
      break;
    case 6: /* selections */
      seen = all = 0;
      if (repeat > 1) repeat = 100;
      for (k = 0; k < repeat; k += 1) {
        u32 at = 0;
        size = 77777;
        sim_faults_on();
        sp_times_select_random(a, n, b, &size);
        sim_faults_off();
        contract(size <= n, "sp_times_select_random selects too many", size, n);
        for (i = 0; i < size; i += 1) {
          while (at < n && a[at] != b[i]) at += 1;
          contract(at < n, "sp_times_select_random does not select elements in their order", i, size);
          seen |= 1ull << at;
          at += 1;
        }
        if (sim_alloc_faults_fired()) {
          repeat = 1;
          break;
        }
      }
      if (repeat > 1) contract(seen == (1ull << n) - 1, "sp_times_select_random never selects some elements", seen, (1ull << n) - 1);
      break;
    case 7: /* distributions */
      seen = 0;
      for (k = 0; k < repeat; k += 1) {
        size = sp_time_random_discrete(c, m);
        contract(size < m && c[size] > (size ? c[size - 1] : 0), "sp_time_random_discrete returns something impossible", size, m);
        seen |= 1ull << size;
      }
      if (repeat > 1)
        for (i = 0; i < m; i += 1) contract(c[i] == (i ? c[i - 1] : 0) || (seen >> i & 1), "sp_time_random_discrete never returns something possible", i, m);
      sp_times_random_discrete(c, m, n, b);
      for (i = 0; i < n; i += 1) contract(b[i] < m && c[b[i]] > (b[i] ? c[b[i] - 1] : 0), "sp_times_random_discrete returns something impossible", b[i], m);
      if (m > 1) {
        size = sp_time_random_discrete_bounded(c, m, 100);
        contract(size <= 100, "sp_time_random_discrete_bounded", size, 100);
      }
      s[0] = sp_sample_random_discrete_bounded(c, m, 8);
      contract(s[0] >= 0 && s[0] <= 8, "sp_sample_random_discrete_bounded", 0, 8);
      break;
    case 8: /* unique */
      k = n ? OPR(1, nz < n ? nz : n) : 0;
      sp_times_random_discrete_unique(c, m, k, b);
      memset(used, 0, sizeof used);
      for (i = 0; i < k; i += 1) {
        contract(b[i] < m && c[b[i]] > (b[i] ? c[b[i] - 1] : 0), "sp_times_random_discrete_unique returns something impossible", b[i], m);
        contract(!used[b[i]], "sp_times_random_discrete_unique returns a value twice", b[i], m);
        used[b[i]] = 1;
      }
      break;
    case 9:
      k = OP(1000);
      size = sp_normal_random(k, k + m);
      contract(size >= k && size < k + m, "sp_normal_random", size, k + m);
      break;
    }
    sim_hash_bytes(&sp_random_state, sizeof sp_random_state);
    sim_free(a);
    sim_free(b);
    sim_free(c);
    sim_free(s);
    sim_leak_check(mark, "random operations");
  }
  sim_nontrivial();
  lib_end("after random operations");
}
