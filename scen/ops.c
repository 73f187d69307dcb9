/* Operations of the whole public interface as small programs that can be run again with the same inputs:
   with failing allocations (C12 C13) and with other leftover memory, addresses and history (C21). */
#include "common.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <sph-sp/random.h>

spline_path_segment_t spline_path_bezier_arc(double x, double y, double curvature) __attribute__((weak));
void spline_path_get(spline_path_t* path, size_t start, size_t end, double* out) __attribute__((weak));
void sp_samples_differences(sp_sample_t* a, sp_time_t count, sp_sample_t* out) __attribute__((weak));
void sp_interleave(sp_sample_t** a, sp_sample_t* b, sp_time_t a_size, sp_channel_count_t channel_count) __attribute__((weak));
void sp_deinterleave(sp_sample_t** a, sp_sample_t* b, sp_time_t a_size, sp_channel_count_t channel_count) __attribute__((weak));

typedef struct {
  u64 h;
  int unknown; /* the operation can not report failure */
  int workers;
  int par;    /* other operations run at the same time in other threads */
  u32 other, ndraws;
  u32 kind, kind_fixed, kind_known; /* one more than the first kind that was drawn */
  u64 lcg;    /* then draws come from here. zero: always the simplest */
  void* mem[400];
  u32 nmem;
} opx;
#define MAXSLOTS 24
static opx XS[MAXSLOTS]; /* one for each thread */
NOINST static opx* slot(void) {
  int f = sim_fiber();
  if (f < 0 || f >= MAXSLOTS) sim_violation("crash-in-checker", "too many threads");
  return XS + f;
}
#define X (*slot())
#define opmem (X.mem)
#define nopmem (X.nmem)
NOINST static u32 op_draw(u32 n) {
  opx* x = slot();
  if (!x->par) {
    u32 v = sim_choose(S_OPS, n);
    if (x->other && n > 1) { /* some draws differ from those that are read again */
      u64 h = (x->other + 16 * (u64)++x->ndraws) * 0x9e3779b97f4a7c15ull;
      h ^= h >> 29;
      h *= 0xbf58476d1ce4e5b9ull;
      h >>= 20;
      if (!(h & ((2 << x->other % 4) - 1))) v = (v + 1 + (u32)(h >> 8) % (n - 1)) % n;
    }
    return v;
  }
  if (!x->lcg || n < 2) return 0;
  x->lcg = x->lcg * 6364136223846793005ull + 1442695040888963407ull;
  return (u32)(x->lcg >> 33) % n;
}
#undef OP
#undef OPR
#define OP(n) op_draw(n)
#define OPR(lo, hi) ((lo) + op_draw((hi) - (lo) + 1))
/* the kind of an operation, which can be the one of another operation */
NOINST static u32 op_kind(u32 n) {
  opx* x = slot();
  u32 k = op_draw(n);
  if (x->kind_known) return k;
  x->kind_known = 1;
  if (x->kind_fixed) return (x->kind - 1) % n;
  x->kind = 1 + k;
  return k;
}
#define KIND(n) op_kind(n)
/* rarely much longer */
NOINST static u32 longer(u32 n) { return OP(60) == 59 ? n * OPR(2, 60) : n; }
NOINST static void hb(const void* a, size_t n) {
  const u8* p = a;
  u64 h = X.h;
  for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull;
  X.h = h ^ (h >> 29);
}
NOINST static void hu(u64 a) { hb(&a, 8); }
NOINST static void hd(double a) {
  if (a != a) hu(77);
  else hb(&a, 8);
}
NOINST static void hda(const double* a, size_t n) {
  for (size_t i = 0; i < n; i++) hd(a[i]);
}
NOINST static void hta(const sp_time_t* a, size_t n) { hb(a, n * sizeof *a); }
NOINST static void* mem(size_t n) {
  void* r = harness_malloc(n);
  if (nopmem == 400) sim_violation("crash-in-checker", "too many buffers");
  opmem[nopmem++] = r;
  return r;
}
NOINST static void mem_free(void) {
  while (nopmem) sim_free(opmem[--nopmem]);
}
/* exactly as much memory as is needed, so that every access outside is seen */
NOINST static sp_sample_t* sbuf(u32 n) { return mem(sizeof(sp_sample_t) * n + !n); }
NOINST static sp_time_t* tbuf(u32 n) { return mem(sizeof(sp_time_t) * n + !n); }
NOINST static sp_sample_t* sin_(u32 n, u32 salt) {
  sp_sample_t* a = sbuf(n);
  for (u32 i = 0; i < n; i++) a[i] = (int)((i * (2 * salt + 3) + salt * 5 + (i * i) % 7) % 17) / 8.0 - 1;
  return a;
}
NOINST static sp_time_t* tin(u32 n, u32 salt, u32 mod) {
  sp_time_t* a = tbuf(n);
  for (u32 i = 0; i < n; i++) a[i] = (i * 7 + salt * 13 + (i * i) % 11) % mod;
  return a;
}
NOINST static void dangling(const void* p, const char* what) {
  if (p && !sim_addressable(p, 1)) sim_violation("dangling", "after %s failed the caller is left with a pointer to freed memory", what);
}
/* leaves other values on the stack for functions called next */
NOINST static void dirty_stack(int v) {
  volatile u8 a[12000];
  for (u32 i = 0; i < sizeof a; i++) a[i] = v;
}

NOINST static void wrong(const char* what) { sim_violation("wrong-result", "%s is not what is documented", what); }
/* ---------- operations ---------- */
static status_t op_new(void) {
  status_declare;
  sp_sample_t* a = 0;
  sp_time_t* b = 0;
  u32 n = longer(OPR(1, 40));
  status_require(sp_samples_new(n, &a));
  status_require(sp_times_new(n, &b));
  hda(a, n);
  hta(b, n);
exit:
  if (status_is_failure) dangling(b, "sp_times_new");
  free(a);
  free(b);
  status_return;
}
static status_t op_duplicate(void) {
  status_declare;
  u32 n = longer(OPR(1, 30)), salt = OP(5);
  sp_sample_t *a = sin_(n, salt), *b = 0;
  sp_time_t *c = tin(n, salt, 50), *d = 0, *e = 0;
  status_require(sp_samples_duplicate(a, n, &b));
  status_require(sp_times_duplicate(c, n, &d));
  status_require(sp_times_constant(n, salt, &e));
  hda(b, n);
  hta(d, n);
  hta(e, n);
  if (memcmp(b, a, n * sizeof *a) || memcmp(d, c, n * sizeof *c)) wrong("a duplicate");
  for (u32 i = 0; i < n; i += 1) if (e[i] != salt) wrong("sp_times_constant");
exit:
  if (status_is_failure) {
    dangling(b, "sp_samples_duplicate");
    dangling(d, "sp_times_duplicate");
    dangling(e, "sp_times_constant");
  }
  free(b);
  free(d);
  free(e);
  status_return;
}
static status_t op_permutations(void) {
  status_declare;
  u32 n = OPR(1, 4), i, j;
  sp_time_t *set = tin(n, OP(4), 90), **out = 0, count = 0;
  u8 seen[256] = { 0 };
  for (i = 0; i < n; i += 1) set[i] += i * 100; /* all different */
  status_require(sp_times_permutations(n, set, n, &out, &count));
  hu(count);
  for (i = 0; i < count; i += 1) hta(out[i], n);
  for (i = 1, j = 1; i <= n; i += 1) j *= i;
  if (j != count) wrong("the number of permutations");
  for (i = 0; i < count; i += 1) {
    u32 code = 0, bits = 0, k;
    for (j = 0; j < n; j += 1) {
      for (k = 0; k < n && set[k] != out[i][j]; k += 1) {}
      if (k == n || bits & 1u << k) wrong("a permutation");
      bits |= 1u << k;
      code = code * 4 + k;
    }
    if (seen[code]++) wrong("a repeated permutation");
  }
  sp_times_array_free(out, count);
  out = 0;
exit:
  if (status_is_failure) dangling(out, "sp_times_permutations");
  status_return;
}
static status_t op_compositions(void) {
  status_declare;
  u32 n = OPR(1, 6), i;
  u8 seen[256] = { 0 };
  sp_time_t **out = 0, count = 0, *sizes = 0;
  status_require(sp_times_compositions(n, &out, &count, &sizes));
  hu(count);
  for (i = 0; i < count; i += 1) hta(out[i], sizes[i]);
  if (count != 1u << (n - 1)) wrong("the number of compositions");
  for (i = 0; i < count; i += 1) {
    u32 sum = 0, j, bits = 0;
    for (j = 0; j < sizes[i]; j += 1) {
      sum += out[i][j];
      if (!out[i][j]) wrong("a composition");
      bits |= 1u << sum; /* identifies it */
    }
    if (sum != n) wrong("the sum of a composition");
    if (seen[bits]++) wrong("a repeated composition");
  }
  sp_times_array_free(out, count);
  free(sizes);
  out = 0;
  sizes = 0;
exit:
  if (status_is_failure) {
    dangling(out, "sp_times_compositions");
    dangling(sizes, "sp_times_compositions");
  }
  status_return;
}
static status_t op_random_binary(void) {
  status_declare;
  u32 n = OP(4) == 3 ? 32 * OPR(1, 4) : longer(OPR(1, 150));
  sp_time_t* out = tbuf(n);
  status_require(sp_times_random_binary(n, out));
  hta(out, n);
exit:
  status_return;
}
static status_t op_select_random(void) {
  status_declare;
  u32 n = longer(OPR(1, 60));
  sp_time_t *a = tin(n, OP(3), 90), *out = tbuf(n), count = 0;
  X.unknown = 1;
  sp_times_select_random(a, n, out, &count);
  if (count > n) sim_violation("wrong-result", "sp_times_select_random selected %u of %u", count, n);
  hu(count);
  hta(out, count);
  status_return;
}
static status_t op_scale(void) {
  status_declare;
  u32 n = OPR(1, 10), f = OPR(1, 6);
  sp_time_t *in = tin(n, OP(3), 40), *out = tbuf((n - 1) * f), *out2 = tbuf(n), *cp;
  status_require(sp_times_scale(in, n, f, out));
  hta(out, (n - 1) * f);
  cp = tin(n, 1, 40);
  cp[0] = 1;
  sp_times_scale_sum(cp, n, 100, out2);
  hta(out2, n);
exit:
  status_return;
}
static status_t op_replace(void) {
  status_declare;
  u32 n = longer(OPR(1, 30)), i, back = OP(2);
  sp_sample_t *s = 0, *s2 = 0;
  sp_time_t *t = 0, *t2 = 0;
  if (back) {
    status_require(sp_samples_new(n, &s));
    for (i = 0; i < n; i += 1) s[i] = i * 1.75;
    status_require(sp_samples_to_times_replace(s, n, &t2));
    s = 0;
    hta(t2, n);
  } else {
    status_require(sp_times_new(n, &t));
    for (i = 0; i < n; i += 1) t[i] = i * 3;
    status_require(sp_times_to_samples_replace(t, n, &s2));
    t = 0;
    hda(s2, n);
  }
exit:
  free(s);
  free(t);
  free(s2);
  free(t2);
  status_return;
}
static status_t op_median(void) {
  status_declare;
  u32 n = longer(OPR(1, 25)), salt = OP(4);
  sp_sample_t *a = sin_(n, salt), m;
  sp_time_t* t = tin(n, salt, 30);
  if (sp_stat_samples_median(a, n, &m)) goto fail;
  hd(m);
  if (sp_stat_times_median(t, n, &m)) goto fail;
  hd(m);
  status_return;
fail:
  status.id = sp_s_id_memory;
  status.group = (void*)sp_s_group_sp;
  status_return;
}
static status_t op_statistics(void) {
  status_declare;
  static const sp_stat_times_f_t tf[] = { sp_stat_times_range, sp_stat_times_mean, sp_stat_times_deviation, sp_stat_times_center, sp_stat_times_inharmonicity, sp_stat_times_kurtosis, sp_stat_times_skewness };
  static const sp_stat_samples_f_t sf[] = { sp_stat_samples_range, sp_stat_samples_mean, sp_stat_samples_deviation, sp_stat_samples_center, sp_stat_samples_inharmonicity, sp_stat_samples_kurtosis, sp_stat_samples_skewness };
  u32 n = OPR(1, 25), i, k, salt = OP(4);
  sp_sample_t *a = sin_(n, salt), *out;
  sp_time_t *t = tin(n, salt, 30), *scaled = tbuf(n);
  for (i = 0; i < n; i += 1) {
    t[i] += 1;
    a[i] += 1.25;
  }
  for (k = 0; k < 7; k += 1) {
    out = sbuf(k ? 1 : 3);
    if (tf[k](t, n, out)) sim_violation("unexpected-failure", "a statistic of integers fails");
    hda(out, k ? 1 : 3);
    if (sf[k](a, n, out)) sim_violation("unexpected-failure", "a statistic of samples fails");
    hda(out, k ? 1 : 3);
  }
  if (n > 1) {
    a[1] = a[0] + 1;
    sp_samples_scale_to_times(a, n, 20, scaled);
    hta(scaled, n);
  }
  hu(sp_stat_unique_max(n + 2, 2));
  hu(sp_stat_unique_all_max(n));
  hu(sp_stat_repetition_all_max(n));
  hu(sp_stat_repetition_max(n + 2, 2));
  status_return;
}
static status_t op_paths(void) {
  status_declare;
  u32 len = OPR(4, 60), kind = KIND(20), n = 0;
  double l = len, y = OP(3) ? 1 : -0.5, c = OP(3) * 0.3;
  sp_sample_t* s = 0;
  sp_time_t* t = 0;
  sp_sample_t x[8], ys[10], cs[10];
  u32 i;
  switch (kind) {
  case 0: status = sp_path_samples2(&s, len, 0, y); break;
  case 1: status = sp_path_samples3(&s, len, l / 3, 0, y, 1); break;
  case 2: status = sp_path_samples4(&s, len, l / 4, l / 2, 0, y, 1, 0); break;
  case 3: status = sp_path_samples5(&s, len, l / 5, l / 3, l / 2, 0, y, 1, 0, 1); break;
  case 4: status = sp_path_samples_c2(&s, len, 0, 2, c); break;
  case 5: status = sp_path_samples_c3(&s, len, l / 3, 0, 2, 1, c, c / 2); break;
  case 6: status = sp_path_samples_c4(&s, len, l / 4, l / 2, 0, 2, 1, 3, c, 0, c); break;
  case 7: status = sp_path_samples_c5(&s, len, l / 5, l / 3, l / 2, 0, 2, 1, 0, 1, c, c, 0, c); break;
  case 8: status = sp_path_times2(&t, len, 10, 100); break;
  case 9: status = sp_path_times3(&t, len, l / 3, 1, 9, 4); break;
  case 10: status = sp_path_times4(&t, len, l / 4, l / 2, 1, 7, 3, 9); break;
  case 11: status = sp_path_times5(&t, len, l / 5, l / 3, l / 2, 1, 7, 3, 9, 2); break;
  case 12: status = sp_path_times_c3(&t, len, l / 3, 1, 9, 4, c, c / 2); break;
  case 13: status = sp_envelope_zero3(&s, len, 0.3, y); break;
  case 14: status = sp_envelope_zero_c4(&s, len, 0.3, 0.3, y, 1, c, 0, c); break;
  case 15: status = sp_envelope_zero5(&s, len, 0.2, 0.3, 0.1, y, 1, 0.5); break;
  case 16: status = sp_envelope_scaled4(&t, len, 10, 0.2, 0.3, 1, 2, 1, 3); break;
  default:
    n = OPR(2, 8);
    for (i = 0; i < n; i += 1) {
      ys[i] = 1 + (i * 3) % 5;
      cs[i] = i % 2 ? c : 0;
    }
    if (kind == 17) {
      for (i = 0; i + 2 < n; i += 1) x[i] = l * (i + 1) / n;
      status = OP(2) ? sp_path_samples(&s, len, n, x, ys, OP(2) ? cs : 0) : sp_path_times(&t, len, n, x, ys, 0);
    } else {
      for (i = 0; i + 2 < n; i += 1) x[i] = 1.0 / n;
      status = kind == 18 ? sp_envelope_zero(&s, len, n, x, ys, OP(2) ? cs : 0) : sp_envelope_scaled(&t, len, n, 4, x, ys, OP(2) ? cs : 0);
    }
  }
  if (status_is_failure) {
    dangling(s, "creating a path");
    dangling(t, "creating a path");
    if (s || t) sim_violation("half-built", "creating a path reports failure but passes an array to the caller");
  } else {
    if (s) hda(s, len);
    if (t) hta(t, len);
    if (!s && !t) sim_violation("half-built", "creating a path reports success without a result");
    free(s);
    free(t);
  }
  status_return;
}
static uint8_t segment_prepare_fails(spline_path_segment_t* s) {
  sim_fired(F_CALLBACK_FAIL);
  return 1;
}
static status_t op_spline(void) {
  status_declare;
  spline_path_segment_t seg[6];
  spline_path_t path, copy;
  u32 n = OPR(1, 5), i, len = 0, x = 0;
  sp_sample_t* out;
  int own;
  for (i = 0; i < n; i += 1) {
    x += OPR(1, 12);
    switch (KIND(5)) {
    case 0: seg[i] = spline_path_line(x, i + 1); break;
    case 1: seg[i] = spline_path_move(x, i); break;
    case 2: seg[i] = spline_path_bezier1(x - 0.5, 3, x, i); break;
    case 3: seg[i] = spline_path_bezier2(x - 0.7, 3, x - 0.3, -2, x, i); break;
    default: seg[i] = spline_path_bezier_arc ? spline_path_bezier_arc(x, i, 0.4) : spline_path_line(x, 1); break;
    }
  }
  if (OP(3) == 2) seg[n++] = spline_path_constant();
  len = x + OP(5);
  out = sbuf(len);
  memset(out, 0, sizeof(double) * len);
  own = OP(2);
  if (OP(4) == 3) { /* a user defined segment that can not be prepared */
    i = OP(n);
    uint8_t (*prepare)(spline_path_segment_t*) = (void*)seg[i].prepare;
    seg[i].prepare = (void*)segment_prepare_fails;
    if (own) {
      if (!spline_path_set_copy(&copy, seg, n)) sim_violation("failure-lost", "spline_path_set_copy succeeds although a segment could not be prepared");
    } else if (!spline_path_set(&path, seg, n)) sim_violation("failure-lost", "spline_path_set succeeds although a segment could not be prepared");
    seg[i].prepare = (void*)prepare;
  }
  if (own) {
    if (spline_path_set_copy(&copy, seg, n)) {
      status.id = sp_s_id_memory;
      status.group = (void*)sp_s_group_sp;
      status_return;
    }
    if (spline_path_get) spline_path_get(&copy, 0, len, out);
    spline_path_free(copy);
    free(copy.segments);
  } else if (OP(3) == 2) {
    if (spline_path_segments_get(seg, n, 0, len, out)) sim_violation("unexpected-failure", "spline_path_segments_get fails");
  } else {
    if (spline_path_set(&path, seg, n)) sim_violation("unexpected-failure", "spline_path_set fails");
    if (spline_path_get) spline_path_get(&path, 0, len, out);
    spline_path_free(path);
  }
  hda(out, len);
  status_return;
}
static status_t op_block(void) {
  status_declare;
  sp_block_declare(a);
  sp_block_declare(b);
  sp_block_t c;
  u32 channels = OPR(1, CHL), n = OP(6) == 5 ? 0 : longer(OPR(1, 40)), i, j;
  sp_sample_t* inter;
  status_require(sp_block_new(channels, n, &a));
  status_require(sp_block_new(channels, n + OP(5), &b));
  for (i = 0; i < channels; i += 1) {
    hda(a.samples[i], n);
    hda(b.samples[i], b.size);
    for (j = 0; j < n; j += 1) a.samples[i][j] = i * 100 + j;
  }
  sp_block_copy(a, b);
  for (i = 0; i < channels; i += 1) {
    hda(b.samples[i], b.size);
    for (j = 0; j < b.size; j += 1)
      if (b.samples[i][j] != (j < n ? i * 100 + j : 0)) wrong("the copy of a block");
  }
  if (n) {
    c = sp_block_with_offset(a, n / 2);
    hu(c.size);
    hu(c.channel_count);
    hda(c.samples[0], c.size);
    if (c.size != n - n / 2 || c.channel_count != channels) wrong("a block with an offset");
    for (i = 0; i < channels; i += 1) if (c.samples[i] != a.samples[i] + n / 2) wrong("a block with an offset");
    sp_block_zero(c);
    for (i = 0; i < channels; i += 1)
      for (j = 0; j < n; j += 1)
        if (a.samples[i][j] != (j < n / 2 ? i * 100 + j : 0)) wrong("a block after clearing");
    hda(a.samples[channels - 1], n);
    if (sp_interleave && sp_deinterleave) {
      inter = sbuf(n * channels);
      sp_interleave(b.samples, inter, n, channels);
      hda(inter, n * channels);
      sp_deinterleave(a.samples, inter, n, channels);
      hda(a.samples[0], n);
      for (i = 0; i < channels; i += 1)
        for (j = 0; j < n; j += 1)
          if (inter[j * channels + i] != i * 100 + j || a.samples[i][j] != i * 100 + j) wrong("an interleaved block");
    }
  }
exit:
  sp_block_free(&a);
  sp_block_free(&b);
  status_return;
}
static const double trn_[] = { 0.2, 0.3, 0.1, 0.15 };
static status_t op_ir(void) {
  status_declare;
  sp_sample_t* ir = 0;
  sp_time_t len = 0;
  double c = 0.1 + 0.1 * OP(3), t = trn_[OP(4)];
  u32 kind = KIND(6);
  switch (kind) {
  case 0: status = sp_null_ir(&ir, &len); break;
  case 1: status = sp_passthrough_ir(&ir, &len); break;
  case 2:
  case 3: status = sp_windowed_sinc_lp_hp_ir(c, t, OP(2), &ir, &len); break;
  default: status = sp_windowed_sinc_bp_br_ir(OP(4) == 3 ? 0 : c, OP(4) == 3 ? 0.5 : c + 0.1, t, trn_[OP(4)], OP(2), &ir, &len);
  }
  if (status_is_failure) {
    dangling(ir, "creating an impulse response");
    if (ir) sim_violation("half-built", "creating an impulse response reports failure but passes an array to the caller");
  } else {
    hu(len);
    hda(ir, len);
    if (len > 1) {
      sp_spectral_reversal_ir(ir, len);
      hda(ir, len);
      sp_spectral_inversion_ir(ir, len);
      hda(ir, len);
    }
    free(ir);
  }
  status_return;
}
static status_t op_filter(void) {
  status_declare;
  sp_convolution_filter_state_t* state = 0;
  u32 k, segs = OPR(1, 5), n, kind = KIND(2);
  sp_sample_t *in, *out;
  double c = 0.1 + 0.1 * OP(3), t = trn_[OP(4)];
  for (k = 0; k < segs; k += 1) {
    n = longer(OPR(1, 40));
    in = sin_(n, k);
    out = sbuf(n);
    if (OP(3) == 2) c = 0.1 + 0.1 * OP(3);
    if (OP(4) == 3) t = trn_[OP(4)];
    if (OP(8) == 7) kind = 1 - kind;
    if (kind) { status_require(sp_windowed_sinc_bp_br(in, n, c, c + 0.1, t, t, 0, &state, out)); }
    else status_require(sp_windowed_sinc_lp_hp(in, n, c, t, 0, &state, out));
    hda(out, n);
  }
exit:
  if (state && !sim_addressable(state, sizeof *state)) sim_violation("dangling", "a filter state is freed after a failure but still passed to the caller");
  sp_convolution_filter_state_free(state);
  status_return;
}
static status_t op_fft(void) {
  status_declare;
  u32 n = OP(2) ? 1u << OPR(0, OP(20) == 19 ? 12 : 6) : longer(OPR(1, 50)), salt = OP(4);
  sp_sample_t *re = sin_(n, salt), *im = sin_(n, salt + 1);
  int f = OP(2) ? sp_fft(n, re, im) : sp_ffti(n, re, im);
  if (f) {
    status.id = sp_s_id_memory;
    status.group = (void*)sp_s_group_sp;
    status_return;
  }
  hda(re, n);
  hda(im, n);
  status_return;
}
static status_t op_waves(void) {
  status_declare;
  u32 n = longer(OPR(1, 60)), i, wn = OPR(1, 16), salt = OP(4);
  sp_sample_t *out = sbuf(n), *wvf = sin_(wn, salt), *amod = OP(2) ? sin_(n, 1) : 0;
  sp_time_t *fmod = OP(2) ? tin(n, 2, 9) : 0, phs = 0;
  memset(out, 0, sizeof(double) * n);
  sp_wave(n, wvf, wn, 0.5, amod, OPR(1, 9), fmod, OP(2) ? &phs : 0, out);
  hda(out, n);
  hu(phs);
  phs = 0;
  sp_sine(n, 0.5, amod, OPR(1, 9), fmod, &phs, out);
  hda(out, n);
  hu(phs);
  phs = 0;
  sp_sine_lfo(n, 0.5, amod, OPR(1, 9), fmod, &phs, out);
  hda(out, n);
  hu(phs);
  sp_sine_period(n, out);
  hda(out, n);
  for (i = 0; i < n; i += 1) {
    hd(sp_triangle(i, 1 + salt, 3));
    hd(sp_square(i, 4));
    hd(sp_sinc(i * 0.3));
    hd(sp_window_blackman(i, n + 1));
    hu(sp_phase(i, salt, 7));
    hu(sp_phase_float(i, salt * 0.7, 7));
  }
  hd(sp_pan_to_amp(0.25 * salt, salt & 1));
  hu(sp_time_expt(3, salt));
  hu(sp_time_factorial(salt));
  hu(sp_compositions_max(salt + 1));
  hu(sp_time_harmonize(17 + salt, 5, 0.5));
  status_return;
}
static status_t op_convolve(void) {
  status_declare;
  u32 a = longer(OPR(1, 30)), b = OPR(1, 12), n = a + b - 1;
  sp_sample_t *x = sin_(a, OP(3)), *y = sin_(b, OP(3)), *out = sbuf(n), *o2 = sbuf(a), *carry = sbuf(b - 1);
  memset(out, 0, sizeof(double) * n);
  sp_convolve_one(x, a, y, b, out);
  hda(out, n);
  memset(carry, 0, sizeof(double) * (b - 1));
  sp_convolve(x, a, y, b, 0, carry, o2);
  hda(o2, a);
  sp_convolve(x, a, y, b, b - 1, carry, o2);
  hda(o2, a);
  hda(carry, b - 1);
  status_return;
}
static status_t op_moving_average(void) {
  status_declare;
  u32 n = longer(OPR(2, 30)), r = OP(1 + (n - 2) / 2); /* 2 * r + 1 < n */
  sp_sample_t *in = sin_(n, OP(3)), *out = sbuf(n), *prev, *next;
  prev = OP(2) ? sin_(n, 1) : 0;
  next = OP(2) ? sin_(r ? r : 1, 2) : 0;
  sp_moving_average(in, n, prev ? prev : 0, next, r, out);
  hda(out, n);
  status_return;
}
static void swap_any(void* a, sp_size_t i, sp_size_t j) {
  u32* b = a;
  u32 t = b[i];
  b[i] = b[j];
  b[j] = t;
}
static status_t op_times(void) {
  status_declare;
  u32 n = OPR(1, 24), salt = OP(6), i, k = KIND(25), m;
  sp_time_t *a = tin(n, salt, 40), *b = tin(n, salt + 1, 40), *o, size = 0;
  sp_sample_t *c, *so;
  u8* bytes;
  if (X.par && (k == 13 || k == 18 || k == 19)) k = 0; /* the random state of the library is shared */
  switch (k) {
  case 0: o = tbuf(n); sp_times_reverse(a, n, o); hta(o, n); break;
  case 1: i = OP(n); m = i + OP(n - i + 1); o = tbuf(m - i); sp_times_range(a, i, m, o); hta(o, m - i); break;
  case 2: /* remove */
    i = OP(n);
    m = i == n - 1 && i ? 1 : OP(n - i + 1);
    o = tbuf(n - m);
    sp_times_remove(a, n, i, m, o);
    hta(o, n - m);
    break;
  case 3:
    i = OP(n);
    m = OP(6);
    o = tbuf(n + m);
    memset(o, 0, sizeof(*o) * (n + m));
    sp_times_insert_space(a, n, i, m, o);
    hta(o, n + m);
    break;
  case 4:
    if (n < 2) n = 2, a = tin(2, salt, 40);
    for (i = 1; i < n; i += 1) a[i] = a[i - 1] + 1 + a[i];
    i = OP(n - 1);
    m = OP(5);
    o = tbuf(n + m);
    sp_times_subdivide_difference(a, n, i, m, o);
    hta(o, n + m);
    break;
  case 5:
    m = OPR(1, 3);
    i = OPR(1, 4);
    o = tbuf(m * i);
    memset(o, 0, sizeof(*o) * m * i);
    sp_times_sequences(2 + OP(2), m, i, o);
    hta(o, m * i);
    break;
  case 6: m = OP(32 * n + 1); o = tbuf(m); sp_times_bits_to_times(a, m, o); hta(o, m); break;
  case 7: o = tbuf(n); sp_times_gt_indices(a, n, 20, o, &size); hu(size); hta(o, size); break;
  case 8:
    m = OPR(1, 10);
    o = tbuf(m);
    for (i = 0; i < n; i += 1) b[i] = b[i] % n;
    if (m > n) m = n;
    sp_times_select(a, b, m, o);
    hta(o, m);
    break;
  case 9: o = tbuf(n); sp_times_blend(a, b, 0.25, n, o); hta(o, n); c = sin_(n, 1); for (i = 0; i < n; i += 1) c[i] = (c[i] + 1) / 2; sp_times_mask(a, b, c, n, o); hta(o, n); break;
  case 10: o = tbuf(n); sp_times_limit(a, n, 20, o); hta(o, n); break;
  case 11:
    m = OPR(1, 12);
    b = tin(m, 3, 40);
    o = tbuf(n > m ? n : m);
    sp_times_make_seamless_right(a, n, b, m, o);
    hta(o, n);
    o = tbuf(m);
    sp_times_make_seamless_left(a, n, b, m, o);
    hta(o, m);
    break;
  case 12: o = tbuf(n); sp_times_additions(3, 4, n, o); hta(o, n); o = tbuf(n); sp_times_multiplications(1, 3, n, o); hta(o, n); o = tbuf(n); sp_times_cusum(a, n, o); hta(o, n); break;
  case 13:
    sp_times_shuffle(a, n);
    hta(a, n);
    sp_shuffle(swap_any, a, n);
    hta(a, n);
    sp_times_swap(a, 0, n - 1);
    hta(a, n);
    break;
  case 14: o = tbuf(n); sp_times_and_times(a, b, n, 20, o); hta(o, n); o = tbuf(n); sp_times_or_times(a, b, n, 20, o); hta(o, n); o = tbuf(n); sp_times_xor_times(a, b, n, 20, o); hta(o, n); break;
  case 15:
    sp_times_add(a, n, 3);
    sp_times_multiply(a, n, 2);
    sp_times_subtract(a, n, 5);
    sp_times_divide(a, n, 2);
    sp_times_square(a, n);
    hta(a, n);
    sp_times_add_times(a, n, b);
    sp_times_multiply_times(a, n, b);
    sp_times_subtract_times(a, n, b);
    hta(a, n);
    for (i = 0; i < n; i += 1) b[i] += 1;
    sp_times_divide_times(a, n, b);
    hta(a, n);
    break;
  case 16: hu(sp_times_min(a, n)); hu(sp_times_max(a, n)); hu(sp_times_absolute_max(a, n)); hu(sp_times_sum(a, n)); hu(sp_times_equal(a, n, a[0])); hu(sp_times_contains(a, n, 7)); break;
  case 17: so = sbuf(n); sp_times_to_samples(a, n, so); hda(so, n); break;
  case 18: /* draws with a distribution */
    a[0] = 1;
    for (i = 1; i < n; i += 1) a[i] = a[i - 1] + 1 + a[i] % 3;
    m = OPR(1, 10);
    o = tbuf(m);
    sp_times_random_discrete(a, n, m, o);
    hta(o, m);
    hu(sp_time_random_discrete(a, n));
    if (n > 1) hu(sp_time_random_discrete_bounded(a, n, 100));
    hd(sp_sample_random_discrete_bounded(a, n, 100));
    sp_times_random_discrete_unique(a, n, m, o);
    hta(o, m < n ? m : n);
    break;
  case 19:
    o = tbuf(n);
    sp_times_random(n, o);
    hta(o, n);
    o = tbuf(n);
    sp_times_random_bounded(7, n, o);
    hta(o, n);
    hu(sp_time_random());
    hu(sp_time_random_bounded(100));
    hu(sp_normal_random(2, 50));
    hu(sp_time_deharmonize(17, 5, 0.5));
    break;
  case 20:
    m = OPR(1, 8);
    bytes = mem(m);
    for (i = 0; i < m; i += 1) bytes[i] = i * 37 + salt;
    hu(sp_u64_from_array(bytes, m));
    break;
  case 21: o = tbuf(n); sp_times_copy(a, n, o); hta(o, n); sp_times_set(o, n, 4); hta(o, n); break;
  case 22: o = tbuf(n); memset(o, 0, sizeof(*o) * n); sp_times_extract_in_range(a, n, 5, 20, o, &size); hu(size); hta(o, n); break;
  case 23: {
    size_t div[3] = { 4, 3, 2 };
    for (i = 0; i < n; i += 1) hu(sp_modulo_match(i + 1, div, 3));
    sp_times_sequence_increment(a, n, 41);
    hta(a, n);
    break;
  }
  case 24:
    hu(sp_time_sum(a, n));
    hu(sp_time_max(a[0], b[0]));
    hu(sp_time_min(a[0], b[0]));
    hu(sp_set_sequence_max(OP(5), OP(5)));
    hu(sp_permutations_max(5, OP(5)));
    sp_times_display(a, n);
    a[n / 2] += 1; /* not all zero */
    o = tbuf(n);
    memset(o, 0, sizeof(*o) * n);
    sp_times_scale_y(a, n, 200, o);
    hta(a, n);
    hta(o, n);
    break;
  }
  status_return;
}
static status_t op_samples(void) {
  status_declare;
  u32 n = OPR(1, 24), salt = OP(6), i, k = KIND(11), m;
  sp_sample_t *a = sin_(n, salt), *b = sin_(n, salt + 1), *o;
  sp_time_t* t;
  if (X.par && (k == 7 || k == 8)) k = 0;
  switch (k) {
  case 0: o = sbuf(n); sp_samples_reverse(a, n, o); hda(o, n); break;
  case 1: i = OP(n); m = i + OP(n - i + 1); o = sbuf(m - i); sp_samples_range(a, i, m, o); hda(o, m - i); break;
  case 2: o = sbuf(n); sp_samples_blend(a, b, 0.25, n, o); hda(o, n); o = sbuf(n); sp_samples_limit_abs(a, n, 0.5, o); hda(o, n); sp_samples_to_units(a, n); hda(a, n); break;
  case 3: o = sbuf(n); sp_samples_and_samples(a, b, n, 0, o); hda(o, n); o = sbuf(n); sp_samples_or_samples(a, b, n, 0, o); hda(o, n); o = sbuf(n); sp_samples_xor_samples(a, b, n, 0, o); hda(o, n); break;
  case 4:
    sp_samples_add(a, n, 3);
    sp_samples_multiply(a, n, 2);
    sp_samples_subtract(a, n, 5);
    sp_samples_divide(a, n, 2);
    sp_samples_square(a, n);
    sp_samples_add_samples(a, n, b);
    sp_samples_multiply_samples(a, n, b);
    sp_samples_subtract_samples(a, n, b);
    hda(a, n);
    sp_samples_divide_samples(a, n, b);
    hda(a, n);
    break;
  case 5: hd(sp_samples_min(a, n)); hd(sp_samples_max(a, n)); hd(sp_samples_absolute_max(a, n)); hu(sp_samples_equal(a, n, a[0])); break;
  case 6:
    o = sbuf(n);
    sp_samples_additions(3, 4, n, o);
    hda(o, n);
    o = sbuf(n);
    sp_samples_divisions(1, 3, n, o);
    hda(o, n);
    o = sbuf(n);
    sp_samples_cusum(a, n, o);
    hda(o, n);
    o = sbuf(n - 1);
    if (sp_samples_differences) sp_samples_differences(a, n, o);
    else memset(o, 0, sizeof(double) * (n - 1));
    hda(o, n - 1);
    break;
  case 7: sp_samples_shuffle(a, n); hda(a, n); break;
  case 8:
    o = sbuf(n);
    sp_samples_random(n, o);
    hda(o, n);
    o = sbuf(n);
    sp_samples_random_bounded(7, n, o);
    hda(o, n);
    o = sbuf(n);
    sp_units_random(n, o);
    hda(o, n);
    hd(sp_sample_random());
    hd(sp_unit_random());
    break;
  case 9:
    t = tbuf(n);
    for (i = 0; i < n; i += 1) a[i] += 1.3;
    sp_samples_to_times(a, n, t);
    hta(t, n);
    sp_samples_set_gain(a, n, 2);
    hda(a, n);
    sp_samples_set_unity_gain(a, b, n);
    hda(a, n);
    o = sbuf(n);
    sp_samples_copy(a, n, o);
    hda(o, n);
    break;
  case 10:
    hd(sp_sample_max(a[0], b[0]));
    hd(sp_sample_min(a[0], b[0]));
    sp_samples_display(a, n);
    sp_samples_limit(a, n, 0.5);
    hda(a, n);
    a[n / 2] = 1.5;
    sp_samples_scale_y(a, n, 0.5);
    hda(a, n);
    for (i = 0; i < n; i += 1) a[i] = 1.25 + i + b[i];
    o = sbuf(n);
    memset(o, 0, sizeof(*o) * n);
    sp_samples_scale_sum(a, n, 10, o);
    hda(a, n);
    sp_samples_set(a, n, 0.75);
    hda(a, n);
    hd(sph_f64_sum(a, n));
    hu(sph_f64_array_nearly_equal(a, n, b, n, 0.5));
    hu(sph_f64_array_nearly_equal(a, n, a, n, 0));
    break;
  }
  status_return;
}
static status_t op_strings(void) {
  status_declare;
  u32 n = OP(20), count = OPR(1, 6), i, done = 0;
  u8* text = 0;
  sp_time_t** t = 0;
  status_require(sph_helper_malloc_string(n, &text));
  if (!sim_addressable(text, n + 1) || text[n]) sim_violation("wrong-result", "a new string of length %u does not end with zero", n);
  if (n) memset(text, 'a', n);
  hu(strlen((char*)text));
  status_require(sph_helper_calloc(count * sizeof *t, &t));
  for (i = 0; i < count; i += 1) {
    status_require(sp_times_new(1 + i, &t[i]));
    t[i][i] = i;
    hta(t[i], 1 + i);
  }
  sp_times_shuffle_swap(t, 0, count - 1);
  if (!X.par) sp_shuffle(sp_times_shuffle_swap, t, count);
  done = 1;
exit:
  free(text);
  if (done || t) sp_times_array_free(t, count);
  status_return;
}
static status_t op_tree(void) {
  status_declare;
  treeopt o = treeopt_all();
  sp_event_list_t* list = 0;
  sp_block_t block, b;
  u32 cuts[70], ncuts, i, end;
  int par;
  node* root;
  nnodes = 0;
  o.max_nodes = 10;
  o.noise = OP(3) == 2;
  o.noise_mod = OP(2);
  o.par = X.workers != 0;
  root = gen_tree(&o);
  end = tree_end(root);
  ncuts = gen_cuts(0, end, cuts, 60);
  par = X.workers ? OP(2) : 0;
  tree_reset_history();
  status_require(build_list(root, &list));
  block.channel_count = CHL;
  block.size = end;
  for (i = 0; i < CHL; i += 1) {
    block.samples[i] = sbuf(end);
    fill_pattern(block.samples[i], end, i);
  }
  for (i = 0; i + 1 < ncuts; i += 1) {
    b = sp_block_with_offset(block, cuts[i]);
    b.size = cuts[i + 1] - cuts[i];
    status_require((par ? sp_seq_parallel : sp_seq)(cuts[i], cuts[i + 1], b, &list));
  }
  for (i = 0; i < CHL; i += 1) hda(block.samples[i], end);
exit:
  sp_event_list_free(&list);
  check_nothing_running("after rendering");
  check_histories(root, 0, end, 0);
  status_return;
}
static status_t op_configs(void) {
  status_declare;
  sp_event_t e = { 0 };
  sp_wave_event_config_t* w = 0;
  sp_noise_event_config_t* z = 0;
  sp_map_event_config_t* m = 0;
  sp_sample_t *s = 0, *s2 = 0;
  sp_time_t *t = 0, *t2 = 0;
  u32 n = OPR(1, 20), k = OPR(1, 3), i;
  u8* d = 0;
  status_require(sp_event_memory_ensure(&e, OPR(1, 4)));
  status_require(sp_wave_event_config_new_n(k, &w));
  status_require(sp_event_memory_add(&e, w));
  /* memory that is not registered because of a failure belongs to the caller */
  status_require(sp_noise_event_config_new_n(k, &z));
  status = sp_event_memory_add(&e, z);
  if (status_is_failure) {
    free(z);
    goto exit;
  }
  status_require(sp_map_event_config_new_n(k, &m));
  status = sp_event_memory_add(&e, m);
  if (status_is_failure) {
    free(m);
    goto exit;
  }
  for (i = 0; i < k; i += 1) {
    hu(w[i].channel_count);
    hu(w[i].wvf_size);
    hu(w[i].channel_config[0].use);
    hd(w[i].channel_config[0].amp);
    hu(w[i].channel_config[CHL - 1].channel);
    hu(z[i].channel_count);
    hu(z[i].resolution);
    hu(z[i].is_reject);
    hd(z[i].channel_config[0].amp);
    hd(z[i].channel_config[0].trnl);
    hu(z[i].channel_config[CHL - 1].channel);
    hu(m[i].isolate);
  }
  sp_event_samples_srq(&e, n, &s);
  hda(s, n);
  sp_event_times_srq(&e, n, &t);
  hta(t, n);
  sp_event_malloc_type_n_srq(&e, n, u8, &d);
  memset(d, 1, n);
  sp_event_envelope_zero3_srq(&e, &s2, n + 3, 0.5, 1.0);
  hda(s2, n + 3);
  sp_event_path_times3_srq(&e, &t2, n + 3, 2, 1, 9, 4);
  hta(t2, n + 3);
exit:
  if (status_is_failure && w && !e.memory.used) free(w);
  sp_event_memory_free(&e);
  status_return;
}
static status_t op_file(void) {
  status_declare;
  sp_file_t f;
  u32 channels = OPR(1, 3), n, k, pieces = OPR(1, 4), size, c, total = 0;
  sp_sample_t* a[3];
  u8* d;
  int ok = 1;
  static const u32 sizes[] = { 4096, 0, 16, 64, 512, 8192 };
  char path[40];
  u32 bufsize = sizes[OP(6)];
  snprintf(path, sizeof path, "/sim/ops%u.wav", X.par ? sim_fiber() : 0);
  if (!X.par) sim_disk_stdio_buffer(bufsize);
  memset(&f, 0xee, sizeof f);
  status_require(sp_file_open_write(path, channels, 44100, &f));
  for (k = 0; k < pieces; k += 1) {
    n = OPR(0, 30);
    for (c = 0; c < channels; c += 1) a[c] = sin_(n, c + k);
    status = sp_file_write(&f, a, n);
    if (status_is_failure) {
      status_t s = status;
      sp_file_close_write(&f);
      status = s;
      goto exit;
    }
    total += n;
  }
  status_require(sp_file_close_write(&f));
  d = sim_file_data(path, &size);
  hu(size);
  hb(d, size);
  status_require(sp_file_open_read(path, &f));
  hu(f.channel_count);
  n = OPR(1, 20);
  for (k = 0; ok && k < 200; k += 1) {
    for (c = 0; c < channels; c += 1) {
      a[c] = sbuf(n);
      memset(a[c], 0, n * sizeof(double));
    }
    status = sp_file_read(f, n, a);
    if (status_is_failure) {
      if (status.id == sp_s_id_file_eof && !strcmp((char*)status.group, sp_s_group_sp)) status.id = 0;
      ok = 0;
    }
    for (c = 0; c < channels; c += 1) hda(a[c], n);
    for (c = 0; c < channels; c += 1) sim_free(opmem[--nopmem]);
  }
  sp_file_close_read(f);
exit:
  if (!X.par && sim_open_files()) sim_violation("open-file", "a file is open after it was closed");
  status_return;
}
static status_t op_render(void) {
  status_declare;
  treeopt o = treeopt_all();
  sp_event_t e;
  sp_block_t block;
  sp_render_config_t rc;
  node* root;
  u32 end, lo, hi, i, size;
  u8* d;
  int how = OP(3), started = 0;
  nnodes = 0;
  o.max_nodes = 7;
  o.par = X.workers != 0;
  root = gen_tree(&o);
  end = tree_end(root);
  lo = how == 2 ? 0 : OP(end);
  hi = how == 2 ? end : lo + 1 + OP(end - lo);
  rc = sp_render_config(CHL, 1000, OPR(1, end + 4), OP(2));
  tree_reset_history();
  root->append = 0;
  memset(&block, 0, sizeof block);
  status_require(build_event(root, &e));
  started = 1;
  if (how == 0) {
    status_require(sp_render_range_block(e, lo, hi, rc, &block));
    hu(block.size);
    for (i = 0; i < CHL; i += 1) hda(block.samples[i], block.size);
    sp_block_free(&block);
  } else {
    if (how == 1) { status_require(sp_render_range_file(e, lo, hi, rc, "/sim/ops.wav")); }
    else {
      sp_channel_count = CHL;
      status_require(sp_render_file(e, "/sim/ops.wav"));
    }
    d = sim_file_data("/sim/ops.wav", &size);
    hu(size);
    hb(d, size);
  }
exit:
  (void)started;
  check_nothing_running("after rendering");
  check_histories(root, lo, hi, 0);
  if (sim_open_files()) sim_violation("open-file", "a file is open after rendering");
  status_return;
}
/* events that share nothing with others and keep no records */
static status_t own_generate(sp_time_t start, sp_time_t end, sp_block_t out, sp_event_t* e) {
  status_declare;
  u32* c = e->config;
  for (u32 k = 0; k < out.channel_count; k += 1)
    for (u32 i = start; i < end; i += 1) out.samples[k][i - start] += ((i * c[0] + k) % 9) / 8.0;
  c[1] += end - start;
  status_return;
}
static status_t own_map(sp_time_t start, sp_time_t end, sp_block_t in, sp_block_t out, void* config) {
  status_declare;
  for (u32 k = 0; k < out.channel_count; k += 1)
    for (u32 i = 0; i < end - start; i += 1) {
      if (in.samples[k] == out.samples[k]) out.samples[k][i] *= 0.5;
      else out.samples[k][i] += 2 * in.samples[k][i] + (start + i) % 3;
    }
  status_return;
}
static status_t own_event(u32 depth, sp_event_t* out) {
  status_declare;
  sp_declare_event(e);
  sp_event_t child, *ep = &e;
  sp_wave_event_config_t* w;
  sp_map_event_config_t* m;
  sp_sample_t* amod;
  u32 *c, n = OPR(1, 30), k, i, kind = OP(depth ? 5 : 2);
  e.end = n;
  switch (kind) {
  case 0:
    sp_event_malloc_srq(ep, 2 * sizeof(u32), &c);
    c[0] = 1 + OP(5);
    c[1] = 0;
    e.config = c;
    e.generate = own_generate;
    break;
  case 1:
    status_require(sp_wave_event_config_new(&w));
    status = sp_event_memory_add(ep, w);
    if (status_is_failure) {
      free(w);
      goto exit;
    }
    if (OP(2)) { sp_event_envelope_zero3_srq(ep, &amod, n, n / 2, 0.75); }
    else {
      sp_event_samples_srq(ep, n, &amod);
      for (i = 0; i < n; i += 1) amod[i] = 0.5;
    }
    w->channel_config[0].amod = amod;
    w->channel_config[0].frq = OPR(1, 20);
    w->channel_count = OPR(1, CHL);
    sp_wave_event(ep, w);
    break;
  case 2:
  case 3:
    status_require(sp_map_event_config_new(&m));
    status = sp_event_memory_add(ep, m);
    if (status_is_failure) {
      free(m);
      goto exit;
    }
    m->isolate = kind == 3;
    m->map_generate = own_map;
    status_require(own_event(depth - 1, &child));
    e.end = child.end;
    m->event = child;
    sp_map_event(ep, m);
    break;
  default:
    sp_group_event(ep);
    e.end = 0;
    k = OPR(1, 3);
    for (i = 0; i < k; i += 1) {
      status_require(own_event(depth - 1, &child));
      if (OP(2)) status = sp_group_append(ep, child);
      else status = sp_group_add(ep, sp_event_schedule(child, OP(9), 0, 0));
      if (status_is_failure) goto exit;
    }
  }
  *out = e;
exit:
  if (status_is_failure) {
    sp_event_free(e);
  }
  status_return;
}
static status_t op_events(void) {
  status_declare;
  sp_event_t e;
  sp_event_list_t* list = 0;
  sp_block_t block, b;
  sp_render_config_t rc;
  u32 end, lo, hi, i, size = 0, how = OP(4), z;
  u8* d;
  char path[40];
  snprintf(path, sizeof path, "/sim/own%u.wav", X.par ? sim_fiber() : 0);
  memset(&block, 0, sizeof block);
  status_require(own_event(2, &e));
  end = e.end;
  lo = how == 3 ? 0 : OP(end);
  hi = how == 3 ? end : lo + 1 + OP(end - lo);
  rc = sp_render_config(CHL, 1000, OPR(1, end + 4), OP(2));
  if (how == 0) {
    status = sp_event_list_add(&list, e);
    if (status_is_failure) {
      sp_event_free(e);
      goto exit;
    }
    status_require(sp_block_new(CHL, end, &block));
    for (i = 0; i < end; i = z) {
      z = i + OPR(1, 12);
      if (z > end) z = end;
      b = sp_block_with_offset(block, i);
      b.size = z - i;
      status_require(sp_seq(i, z, b, &list));
    }
  } else if (how == 1) { status_require(sp_render_range_block(e, lo, hi, rc, &block)); }
  else if (how == 2) { status_require(sp_render_range_file(e, lo, hi, rc, path)); }
  else {
    if (!X.par) sp_channel_count = CHL;
    status_require(sp_render_file(e, path));
  }
  if (how < 2)
    for (i = 0; i < CHL; i += 1) hda(block.samples[i], block.size);
  else {
    d = sim_file_data(path, &size);
    hb(d, size);
  }
  hu(size);
exit:
  sp_event_list_free(&list);
  sp_block_free(&block);
  status_return;
}
extern uint32_t sp_plot_temp_file_index __attribute__((weak));
static status_t op_plot(void) {
  status_declare;
  u32 n = OPR(1, 30), size = 0, kind = KIND(6), commands;
  sp_sample_t* a = sin_(n, OP(4));
  sp_time_t* t = tin(n, OP(4), 50);
  u8* d;
  char path[40];
  snprintf(path, sizeof path, "/sim/ops%u.plot", X.par ? sim_fiber() : 0);
  X.unknown = 1;
  if (kind == 0) sp_plot_samples_to_file(a, n, path);
  else if (kind == 1) sp_plot_times_to_file(t, n, path);
  else if (kind == 2) sp_plot_spectrum_to_file(a, n, path);
  else { /* the file has a number, and a command shows it */
    if (X.par || !&sp_plot_temp_file_index) status_return;
    sp_plot_temp_file_index = OP(2) ? 3 : 4294967294u;
    if (kind == 3) sp_plot_samples(a, n);
    else if (kind == 4) sp_plot_times(t, n);
    else sp_plot_spectrum(a, n);
    const char* command = sim_last_command(&commands);
    const char *b = commands ? strchr(command, '"') : 0, *e = b ? strchr(b + 1, '"') : 0;
    if (b && e && e - b - 1 < (long)sizeof path) {
      memcpy(path, b + 1, e - b - 1);
      path[e - b - 1] = 0;
      hb(command, strlen(command));
    }
  }
  d = sim_file_data(path, &size);
  hu(size);
  if (d) hb(d, size);
  hda(a, n);
  hta(t, n);
  if (!X.par && sim_open_files()) sim_violation("open-file", "a file is open after plotting");
  status_return;
}
static status_t op_random_state(void) {
  status_declare;
  sp_random_state_t s = sp_random_state_new(OP(50));
  u32 n = OPR(1, 20);
  sp_time_t* t = tbuf(n);
  sp_sample_t* a = sbuf(n);
  sp_times_random_primitive(&s, n, t);
  hta(t, n);
  sp_samples_random_primitive(&s, n, a);
  hda(a, n);
  hb(&s, sizeof s);
  hb(&sp_random_state, sizeof sp_random_state);
  hu(sp_rate);
  status_return;
}
static status_t op_status(void) {
  status_declare;
  static const char* groups[] = { sp_s_group_sp, sp_s_group_libc, sp_s_group_sph, "other" };
  u32 i, k;
  status_t s;
  char* t;
  for (k = 0; k < 4; k += 1)
    for (i = 0; i < 20; i += 1) {
      s.group = (u8*)groups[k];
      s.id = i;
      t = (char*)sp_status_description(s);
      if (k != 1 && t) hb(t, strlen(t));
      t = (char*)sp_status_name(s);
      if (t) hb(t, strlen(t));
    }
  status_return;
}
typedef struct {
  const char* name;
  status_t (*run)(void);
  int allocates;
} op_t;
static const op_t ops[] = { { "arrays", op_new, 1 }, { "copies", op_duplicate, 1 }, { "permutations", op_permutations, 1 }, { "compositions", op_compositions, 1 }, { "random bits", op_random_binary, 1 },
  { "random selection", op_select_random, 1 }, { "scaling", op_scale, 1 }, { "conversion", op_replace, 1 }, { "medians", op_median, 1 }, { "paths", op_paths, 3 }, { "spline path", op_spline, 1 },
  { "blocks", op_block, 1 }, { "impulse response", op_ir, 2 }, { "filter", op_filter, 3 }, { "fourier transform", op_fft, 2 }, { "event tree", op_tree, 4 }, { "event memory", op_configs, 2 },
  { "file", op_file, 1 }, { "rendering", op_render, 3 }, { "plot", op_plot, 1 }, { "statistics", op_statistics, 0 }, { "waves", op_waves, 0 }, { "convolution", op_convolve, 0 },
  { "moving average", op_moving_average, 0 }, { "integer arrays", op_times, 0 }, { "sample arrays", op_samples, 0 }, { "random state", op_random_state, 0 }, { "status descriptions", op_status, 0 }, { "own events", op_events, 3 },
  { "strings and arrays of arrays", op_strings, 1 } };
#define NOPS (sizeof ops / sizeof *ops)
/* weighted choice */
NOINST static u32 draw_op(int allocating) {
  u32 i, sum = 0, r;
  for (i = 0; i < NOPS; i++) sum += allocating ? ops[i].allocates : i < 20 ? 1 : 2;
  r = OP(sum);
  for (i = 0; i < NOPS; i++) {
    u32 w = allocating ? ops[i].allocates : i < 20 ? 1 : 2;
    if (r < w) return i;
    r -= w;
  }
  return 0;
}
static status_t run_op(u32 id, int dirt, u64* hash) {
  status_t s;
  X.h = 14695981039346656037ull;
  X.unknown = 0;
  dirty_stack(dirt);
  s = ops[id].run();
  sim_faults_off();
  sim_alloc_fail_at(0);
  mem_free();
  *hash = X.h;
  return s;
}
/* every allocation of an operation may fail */
void scen_op_alloc(void) {
  u32 id, pos, n0, n1, k, rounds, r, how;
  u64 want, got, mark;
  sp_random_state_t random;
  status_t s;
  int fired;
  sim_faults_setup(FM_HEAP | FM_ALLOC);
  X.workers = OP(3) == 2 ? OPR(1, 3) : 0;
  lib_init(X.workers, CHL, 50);
  rounds = OPR(1, 3);
  for (r = 0; r < rounds; r += 1) {
    id = draw_op(1);
    random = sp_random_state;
    how = OP(4);
    k = OP(1 << 16);
    sim_desc("%s%s", r ? "; " : "", ops[id].name);
    mark = sim_heap_mark();
    pos = sim_ops_pos();
    n0 = sim_alloc_count();
    s = run_op(id, 0, &want);
    n1 = sim_alloc_count() - n0;
    if (s.id) sim_violation("unexpected-failure", "%s: fails with %d although nothing failed", ops[id].name, s.id);
    sim_leak_check(mark, ops[id].name);
    if (!n1) continue;
    /* with a failure */
    sim_ops_rewind(pos);
    sp_random_state = random;
    fired = sim_alloc_faults_fired();
    if (how < 3) {
      k = 1 + k % n1;
      sim_desc(", allocation %u of %u fails", k, n1);
      sim_alloc_fail_at(k);
    } else {
      sim_desc(", several of %u allocations fail", n1);
      sim_faults_on();
    }
    mark = sim_heap_mark();
    s = run_op(id, 0xcb, &got);
    fired = sim_alloc_faults_fired() - fired;
    if (s.id) {
      check_status_shape(s, ops[id].name);
      if (!fired && !any_callback_memory_failure) sim_violation("unexpected-failure", "%s: fails with %d although nothing failed", ops[id].name, s.id);
      if (!status_is_memory(s)) sim_violation("wrong-status", "%s: an allocation failed but the status is %d of group %s", ops[id].name, s.id, (char*)s.group);
      PROBE(op_failed_reported);
      sim_nontrivial();
    } else if (!X.unknown || !fired) {
      if (got != want) sim_violation("failure-lost", "%s: %s but success is reported with a different result", ops[id].name, fired ? "an allocation failed" : "nothing failed");
      if (fired) PROBE(op_succeeded_under_faults);
    } else if (how < 3) { /* can not report the failure, but must not use leftovers instead */
      u64 again;
      u32 fill = OP(4);
      sim_ops_rewind(pos);
      sp_random_state = random;
      u32 before = sim_heap_fill();
      sim_heap_set_fill(1 + fill);
      sim_alloc_fail_at(k);
      run_op(id, 0x77, &again);
      sim_heap_set_fill(before);
      if (again != got) sim_violation("not-repeatable", "%s: the result after a failed allocation depends on leftover memory", ops[id].name);
    }
    sim_leak_check(mark, ops[id].name);
    sim_heap_check();
    /* with memory again */
    sim_ops_rewind(pos);
    sp_random_state = random;
    mark = sim_heap_mark();
    s = run_op(id, 0x41, &got);
    if (s.id) sim_violation("unexpected-failure", "%s: still fails with %d when memory is available again", ops[id].name, s.id);
    if (got != want) sim_violation("wrong-result", "%s: gives another result after an earlier failure", ops[id].name);
    PROBE(op_retry_ok);
    sim_leak_check(mark, ops[id].name);
    sim_hash_u64(want);
  }
  lib_end("after failing operations");
}
/* other leftover memory, addresses and history, and other values of variables that were never set:
   the library and this file are linked twice. the second copy is compiled with another initial value of local variables */
typedef struct {
  u32 count, workers, other, ids[4], start[4]; /* start: where the draws of each operation begin */
  u64 want[4];
  /* of this pass */
  u32 first, before, skip, fill, reuse, order, same, kind, others[4];
  const char* difference;
} rerun_t;
void op_rerun_pass(rerun_t* a) {
  static const u8 dirt[] = { 0, 0xff, 0x41, 0xcb };
  u32 i, k;
  u64 got, mark;
  status_t s;
  sim_heap_set_fill(a->fill);
  sim_heap_set_reuse(a->reuse);
  sim_heap_skip(a->skip);
  sim_disk_reset();
  if (a->before) { /* another session before */
    u64 ignored;
    sim_ops_rewind(a->start[a->other && a->count > 1]);
    X.workers = 0;
    lib_init(a->other ? 1 : 0, 1 + a->other, 20 + 30 * a->before);
    s = run_op(a->ids[a->before % a->count], 0x77, &ignored);
    hu(sp_time_random());
    lib_end("after an earlier session");
    sim_disk_reset();
  }
  X.workers = a->workers;
  lib_init(a->workers, CHL, 50);
  mark = sim_heap_mark();
  for (k = 0; k < a->count; k += 1) {
    /* what was called before makes no difference either, apart from the random state and files */
    i = a->order == 1 ? a->count - 1 - k : a->order == 2 ? (k + 1) % a->count : k;
    if (a->order == 3 && i != a->count - 1) continue;
    if (a->first) a->start[i] = a->others[i] ? a->start[0] : sim_ops_pos();
    sim_ops_rewind(a->start[i]);
    X.other = a->others[i];
    X.ndraws = 0;
    sp_random_state = sp_random_state_new(900 + i);
    sim_disk_reset();
    X.kind = a->same ? a->kind : 0;
    X.kind_fixed = X.kind != 0;
    X.kind_known = 0;
    s = run_op(a->ids[i], dirt[a->fill & 3], &got);
    a->kind = X.kind;
    X.kind_fixed = X.other = 0;
    if (s.id) sim_violation("unexpected-failure", "%s: fails with %d although nothing failed", ops[a->ids[i]].name, s.id);
    if (a->first) {
      a->want[i] = got;
      sim_hash_u64(got);
    } else if (got != a->want[i]) sim_violation("not-repeatable", "%s: gives another result when it is repeated with the same inputs, %s", ops[a->ids[i]].name, a->difference);
  }
  sim_leak_check(mark, "after the operations");
  lib_end("after the operations");
}
void alt_op_rerun_pass(rerun_t* a);
void scen_op_rerun(void) {
  u32 i, pass, copy;
  rerun_t a;
  memset(&a, 0, sizeof a);
  sim_faults_setup(FM_WAKE | FM_SLEEP);
  a.workers = OP(3) == 2 ? OPR(1, 3) : 0;
  a.count = OPR(1, 4);
  a.same = a.count > 1 && OP(3) ? OP(3) : 0; /* the same operation, with other arguments */
  for (i = 0; i < a.count; i += 1) {
    a.ids[i] = draw_op(OP(2));
    if (a.same) {
      a.ids[i] = a.ids[0];
      if (i && a.same > 1) a.others[i] = 1 + OP(64); /* with similar arguments */
    }
    sim_desc("%s%s", i ? "; " : "", ops[a.ids[i]].name);
  }
  u32 passes = OPR(2, 3), before[3], skip[3], fill[3], reuse[3], alt[3], order[3];
  a.other = OP(2);
  for (pass = 0; pass < passes; pass += 1) {
    before[pass] = OP(3);
    skip[pass] = OP(2000);
    alt[pass] = OP(2);
    order[pass] = OP(4);
    fill[pass] = pass ? FAULT(5) : 0;
    reuse[pass] = pass ? FAULT(3) == 2 : 0;
  }
  for (pass = 0; pass < passes; pass += 1) {
    a.first = !pass;
    a.before = pass ? before[pass] : 0;
    a.skip = skip[pass];
    a.fill = fill[pass];
    a.reuse = reuse[pass];
    a.order = pass && a.count > 1 ? order[pass] : 0;
    if (a.order) PROBE(other_order);
    copy = pass && alt[pass];
    if (copy) PROBE(other_copy);
    a.difference = reuse[pass] ? "in reused memory" : fill[pass] ? "with other leftover memory" : before[pass] ? "after another session" : a.order ? "in another order of operations" : copy ? "with other values of variables that were never set" : "at other addresses";
    (copy ? alt_op_rerun_pass : op_rerun_pass)(&a);
  }
  PROBE(rerun_compared);
  sim_nontrivial();
}

/* operations that only use what they are given, in several threads at the same time */
static const u8 par_ops[] = { 0, 1, 2, 3, 6, 7, 8, 9, 10, 11, 12, 13, 14, 16, 17, 19, 20, 21, 22, 23, 24, 25, 27, 28, 28, 29 };
typedef struct {
  u32 id;
  u64 seed, want, got;
  u32 status, count;
} par_op;
static void* run_par_op(void* a) {
  par_op* p = a;
  u32 k;
  u64 h = 0;
  for (k = 0; k < p->count; k += 1) {
    X.h = 14695981039346656037ull;
    X.unknown = 0;
    X.workers = 0;
    X.par = 1;
    X.lcg = p->seed ? p->seed + k * 77 : 0;
    dirty_stack(0x5a);
    p->status |= ops[p->id].run().id;
    mem_free();
    X.par = 0;
    h = h * 31 + X.h;
  }
  p->got = h;
  return p;
}
#define MAXPAR 6
void scen_par_ops(void) {
  static sph_future_t f[MAXPAR];
  static par_op p[MAXPAR];
  u32 n, i, r, rounds = OPR(1, 2), same;
  sim_faults_setup(FM_WAKE | FM_SLEEP | FM_HEAP);
  lib_init(OPR(1, 4), CHL, 50);
  for (r = 0; r < rounds; r += 1) {
    n = OPR(2, MAXPAR);
    same = OP(2);
    for (i = 0; i < n; i += 1) {
      p[i].id = par_ops[same && i ? 0 : OP(sizeof par_ops)];
      if (same && i) p[i].id = p[0].id;
      p[i].seed = OP(1 << 16);
      p[i].count = OPR(1, 3);
      p[i].status = 0;
      sim_desc("%s%s", i ? " | " : r ? "; " : "", ops[p[i].id].name);
    }
    /* each alone */
    for (i = 0; i < n; i += 1) {
      run_par_op(p + i);
      if (p[i].status) sim_violation("unexpected-failure", "%s: fails with %d although nothing failed", ops[p[i].id].name, p[i].status);
      p[i].want = p[i].got;
    }
    sim_disk_reset();
    for (i = 0; i + 1 < n; i += 1) sph_future_new(run_par_op, p + i, f + i);
    run_par_op(p + i);
    for (i = 0; i + 1 < n; i += 1)
      if (sph_future_touch(f + i) != p + i) sim_violation("wrong-result", "a future returns something else than its function");
    for (i = 0; i < n; i += 1) {
      if (p[i].status) sim_violation("unexpected-failure", "%s: fails with %d while other operations run in other threads", ops[p[i].id].name, p[i].status);
      if (p[i].got != p[i].want) sim_violation("not-repeatable", "%s: gives another result while other operations run in other threads", ops[p[i].id].name);
      sim_hash_u64(p[i].got);
    }
    PROBE(parallel_operations);
  }
  if (sim_open_files()) sim_violation("open-file", "a file is open after operations in several threads");
  if (sim_switches() > 4) sim_nontrivial();
  lib_end("after operations in several threads");
}
