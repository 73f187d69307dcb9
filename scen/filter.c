/* Processors of continuous streams: convolution filters, oscillators, moving average (C10 C11). */
#include "common.h"
#include <string.h>

#define MAXSTREAM 5000
#define MAXIR 400
typedef struct {
  u32 len, salt;
  u8 extra[24];
} irarg;
typedef struct {
  int kind; /* 0 custom a, 1 custom b, 2 low/high pass, 3 band pass/reject */
  irarg a;
  u8 a_len;
  double p[4];
  u8 flag;
  double* ir;
  u32 ir_len;
} fparam;
static int ir_fail_plan, ir_failed, ir_calls;
NOINST static double exact_value(u32 i, u32 salt) { return (int)((i * (2 * salt + 3) + salt * 5 + (i * i) % 7) % 17) / 8.0 - 1; }
NOINST static int ir_step(void) {
  ir_calls++;
  if (ir_fail_plan && !--ir_fail_plan) {
    ir_failed++;
    sim_fired(F_CALLBACK_FAIL);
    return 1;
  }
  return 0;
}
static status_t custom_ir(void* arguments, sp_sample_t** out, sp_time_t* len, u32 kind) {
  status_declare;
  irarg a;
  sp_sample_t* ir;
  u32 i;
  memset(&a, 0, sizeof a);
  memcpy(&a, arguments, 8);
  if (ir_step()) {
    status.id = 77;
    status.group = (void*)TEST_GROUP;
    status_return;
  }
  status_require(sph_helper_malloc(a.len * sizeof(sp_sample_t), &ir));
  for (i = 0; i < a.len; i += 1) ir[i] = exact_value(i, a.salt + 11 * kind);
  *out = ir;
  *len = a.len;
exit:
  status_return;
}
static status_t custom_ir_a(void* a, sp_sample_t** out, sp_time_t* len) { return custom_ir(a, out, len, 0); }
static status_t custom_ir_b(void* a, sp_sample_t** out, sp_time_t* len) { return custom_ir(a, out, len, 1); }

static void gen_param(fparam* p, int kind, int small) {
  static const double cut[] = { 0.25, 0.1, 0.4, 0.05, 0.33, 0, 0.5 };
  static const double trn[] = { 0.2, 0.3, 0.1, 0.15, 0.08 };
  u32 i;
  status_t s;
  sp_sample_t* ir = 0;
  sp_time_t len = 0;
  memset(p, 0, sizeof *p);
  p->kind = kind;
  if (kind < 2) {
    p->a.len = small ? OPR(1, 6) : OP(40) < 39 ? OPR(1, 40) : OPR(41, MAXIR);
    if (OP(6) == 5) p->a.len = 1;
    p->a.salt = OP(8);
    p->a_len = 8 + 4 * OP(5);
    for (i = 0; i < 24; i += 1) p->a.extra[i] = i < 4 ? OP(2) : 3;
    p->ir_len = p->a.len;
    p->ir = out_alloc(p->ir_len);
    for (i = 0; i < p->ir_len; i += 1) p->ir[i] = exact_value(i, p->a.salt + 11 * kind);
    return;
  }
  p->flag = OP(2);
  if (kind == 2) {
    p->p[0] = cut[OP(5)];
    p->p[1] = trn[OP(small ? 2 : 5)];
    s = sp_windowed_sinc_lp_hp_ir(p->p[0], p->p[1], p->flag, &ir, &len);
  } else {
    p->p[0] = OP(6) == 5 ? 0 : cut[1 + OP(3)];
    p->p[1] = OP(6) == 5 ? 0.5 : p->p[0] + 0.1;
    p->p[2] = trn[OP(small ? 2 : 4)];
    p->p[3] = trn[OP(small ? 2 : 4)];
    s = sp_windowed_sinc_bp_br_ir(p->p[0], p->p[1], p->p[2], p->p[3], p->flag, &ir, &len);
  }
  if (s.id) sim_violation("unexpected-failure", "an impulse response can not be created without a fault: %d", s.id);
  if (len > MAXIR) sim_violation("wrong-result", "an impulse response has the length %u", len);
  p->ir_len = len;
  p->ir = out_alloc(len);
  for (i = 0; i < len; i += 1) p->ir[i] = ir[i];
  free(ir);
}
static status_t apply(const fparam* p, sp_sample_t* in, u32 n, sp_convolution_filter_state_t** state, sp_sample_t* out) {
  status_t s;
  u8* a;
  if (p->kind < 2) {
    /* the arguments only have to be valid during the call */
    a = harness_malloc(p->a_len);
    memcpy(a, &p->a, p->a_len);
    s = sp_convolution_filter(in, n, p->kind ? custom_ir_b : custom_ir_a, a, p->a_len, state, out);
    memset(a, 0x77, p->a_len);
    sim_free(a);
    return s;
  }
  if (p->kind == 2) return sp_windowed_sinc_lp_hp(in, n, p->p[0], p->p[1], p->flag, state, out);
  return sp_windowed_sinc_bp_br(in, n, p->p[0], p->p[1], p->p[2], p->p[3], p->flag, state, out);
}
static const char* const kinds[] = { "custom", "other custom", "low/high-pass", "band-pass/reject" };

/* another stream with its own state that is filtered in turns, also with the same parameters */
static struct {
  int used;
  u32 pos, n;
  sp_convolution_filter_state_t* state;
  double want[MAXSTREAM + 2 * MAXIR];
} co;
static void companion(fparam* p, double tol) {
  double in[12], out[12];
  u32 n, i, j;
  status_t s;
  if (!co.used || OP(2) || co.pos + 12 > MAXSTREAM) return;
  if (co.state && OP(10) == 9) { /* ends and begins again */
    sp_convolution_filter_state_free(co.state);
    co.state = 0;
    memset(co.want, 0, sizeof co.want);
  }
  n = OPR(1, 12);
  for (i = 0; i < n; i += 1) in[i] = exact_value(co.pos + i, 6);
  s = apply(p, in, n, &co.state, out);
  if (s.id) sim_violation("unexpected-failure", "filtering another stream failed with %d although nothing failed", s.id);
  for (i = 0; i < n; i += 1)
    for (j = 0; j < p->ir_len; j += 1) co.want[co.pos + i + j] += in[i] * p->ir[j];
  compare("wrong-stream", out, co.want + co.pos, n, tol, "another stream filtered in turns", 0);
  co.pos += n;
  PROBE(two_streams);
}
static void run_filter(int changes, int faulty) {
  static double want[MAXSTREAM + 2 * MAXIR], x[MAXSTREAM];
  fparam p[8];
  sp_convolution_filter_state_t* state = 0;
  sp_sample_t *in, *out;
  u32 np, cur = 0, nseg, i, j, k, n, pos = 0, tail, fired, last_end = 0, retries;
  int kind, mixed, small = OP(2), exact = 1, was_failure = 0, new_state;
  status_t s;
  double tol;
  sim_faults_setup(FM_HEAP | (faulty ? FM_ALLOC : 0));
  lib_init(0, CHL, 50);
  u64 mark = sim_heap_mark();
  ir_fail_plan = ir_failed = ir_calls = 0;
  co.used = OP(4) == 3;
  co.state = 0;
  co.pos = 0;
  memset(co.want, 0, sizeof co.want);
  kind = OP(4);
  mixed = changes && OP(2);
  np = changes ? OPR(2, 6) : 1;
  for (i = 0; i < np; i += 1) {
    gen_param(&p[i], mixed ? (int)OP(4) : kind, small);
    if (p[i].kind >= 2) exact = 0;
    /* the same arguments for another function, or slightly different ones */
    if (i && p[i].kind < 2 && p[i - 1].kind < 2 && OP(3) == 2) {
      u8 l = p[i].a_len;
      p[i].a = p[i - 1].a;
      p[i].a_len = OP(2) ? p[i - 1].a_len : l;
      if (OP(2)) p[i].a.salt += 1;
      p[i].ir_len = p[i].a.len;
      p[i].ir = out_alloc(p[i].ir_len);
      for (j = 0; j < p[i].ir_len; j += 1) p[i].ir[j] = exact_value(j, p[i].a.salt + 11 * p[i].kind);
    }
  }
  fparam other;
  if (co.used) gen_param(&other, mixed ? (int)OP(4) : kind, small);
  else other = p[0];
  if (other.kind >= 2) exact = 0;
  tol = exact ? 0 : 1e-9;
  memset(want, 0, sizeof want);
  nseg = OPR(1, 14);
  sim_desc("%s, %u parameter sets (", faulty ? "failing updates" : changes ? "changing parameters" : "constant parameters", np);
  for (i = 0; i < np; i += 1) sim_desc("%s%s of length %u", i ? ", " : "", kinds[p[i].kind], p[i].ir_len);
  sim_desc("), %u segments", nseg);
  for (k = 0; k < nseg && pos < MAXSTREAM - 1300; k += 1) {
    n = OP(12) == 11 ? 0 : OP(3) ? OPR(1, 12) : OP(60) < 59 ? OPR(1, 80) : OPR(80, 1200);
    if (changes && OP(2)) {
      j = OP(np);
      if (j != cur) {
        if (p[j].ir_len > p[cur].ir_len) PROBE(ir_grow);
        if (p[j].ir_len < p[cur].ir_len) PROBE(ir_shrink);
        if (p[j].kind != p[cur].kind) PROBE(ir_kind_change);
      }
      cur = j;
    }
    companion(OP(3) == 2 ? &p[cur] : OP(2) ? &p[OP(np)] : &other, tol);
    in = harness_malloc(sizeof(double) * (n + !n));
    out = harness_malloc(sizeof(double) * (n + !n));
    for (i = 0; i < n; i += 1) {
      in[i] = x[pos + i] = exact_value(pos + i, 5);
      out[i] = 1e300; /* whatever was there before */
    }
    for (retries = 0;; retries += 1) {
      if (n < p[cur].ir_len) PROBE(filter_short_segment);
      fired = sim_alloc_faults_fired() + ir_failed;
      new_state = !state;
      if (faulty && retries < 3) {
        sim_faults_on();
        if (OP(4) == 3) ir_fail_plan = 1;
      }
      s = apply(&p[cur], in, n, &state, out);
      sim_faults_off();
      ir_fail_plan = 0;
      sim_trace("segment %u: %u samples with %s of length %u: %d", k, n, kinds[p[cur].kind], p[cur].ir_len, s.id);
      if (!s.id) {
        if (sim_alloc_faults_fired() + ir_failed != (int)fired) {
          PROBE(op_succeeded_under_faults);
          if (ir_failed && sim_alloc_faults_fired() == (int)fired) sim_violation("failure-lost", "creating an impulse response failed but filtering reported success");
        }
        break;
      }
      check_status_shape(s, "filtering");
      PROBE(update_failed);
      was_failure = 1;
      if (sim_alloc_faults_fired() + ir_failed == (int)fired) sim_violation("unexpected-failure", "filtering failed with %d although nothing failed", s.id);
      if (s.id == 77 && !ir_failed) sim_violation("wrong-status", "filtering returned a status that was not reported");
      if (new_state && state && !sim_addressable(state, sizeof *state)) sim_violation("half-built", "a state that can not be used is left after filtering failed");
      if (retries > 4) sim_violation("unexpected-failure", "filtering keeps failing");
      if (changes && OP(2)) cur = OP(np); /* go on with these or other parameters */
      if (OP(12) == 11) { /* give up on this state: it can be freed and a new one started */
        sp_convolution_filter_state_free(state);
        state = 0;
        /* the tail is lost with the state */
        for (i = pos; i < MAXSTREAM + 2 * MAXIR; i += 1) want[i] = 0;
      }
    }
    if (was_failure) PROBE(update_failed_then_used);
    for (i = 0; i < n; i += 1)
      for (j = 0; j < p[cur].ir_len; j += 1) want[pos + i + j] += in[i] * p[cur].ir[j];
    if (n && pos + n + p[cur].ir_len - 1 > last_end) last_end = pos + n + p[cur].ir_len - 1;
    compare("wrong-stream", out, want + pos, n, tol, "filtered segment", 0);
    sim_hash_bytes(out, sizeof(double) * n);
    for (i = 0; i < n; i += 1)
      if (in[i] != x[pos + i]) sim_violation("wrong-stream", "filtering changed its input at %u", pos + i);
    sim_free(in);
    sim_free(out);
    pos += n;
  }
  /* silence: the tail comes out completely and only once */
  tail = last_end > pos ? last_end - pos : 0;
  tail += 10;
  if (co.used && OP(2)) {
    sp_convolution_filter_state_free(co.state);
    co.state = 0;
    co.used = 0;
  }
  for (k = 0; k < tail;) {
    n = OPR(1, 60);
    if (n > tail - k) n = tail - k;
    if (changes && OP(4) == 3) cur = OP(np);
    companion(&p[cur], tol);
    in = harness_malloc(sizeof(double) * n);
    out = harness_malloc(sizeof(double) * n);
    memset(in, 0, sizeof(double) * n);
    s = apply(&p[cur], in, n, &state, out);
    if (s.id) sim_violation("unexpected-failure", "filtering failed with %d although nothing failed", s.id);
    compare("wrong-stream", out, want + pos, n, tol, "tail of a filter", 0);
    sim_free(in);
    sim_free(out);
    k += n;
    pos += n;
  }
  sp_convolution_filter_state_free(state);
  if (co.used) {
    companion(&p[cur], tol);
    sp_convolution_filter_state_free(co.state);
  }
  sp_convolution_filter_state_free(0);
  sim_leak_check(mark, "after a filter state was freed");
  if (nseg > 1) sim_nontrivial();
  lib_end("after filtering");
}
void scen_filter_stream(void) { run_filter(0, 0); }
void scen_filter_change(void) { run_filter(1, 0); }
void scen_filter_fail(void) { run_filter(1, 1); }

/* convolution with carryover that the caller keeps */
static void convolve_direct(void) {
  static double want[MAXSTREAM + MAXIR];
  u32 maxlen = OPR(1, 40), len, prev = 0, nseg = OPR(1, 16), k, n, i, j, pos = 0;
  double* carry = harness_malloc(sizeof(double) * maxlen);
  memset(carry, 0, sizeof(double) * maxlen);
  memset(want, 0, sizeof want);
  len = OPR(1, maxlen);
  sim_desc("convolution with up to %u values in %u segments", maxlen, nseg);
  for (k = 0; k < nseg; k += 1) {
    n = OPR(1, OP(2) ? 8 : 60);
    double *in = harness_malloc(sizeof(double) * n), *out = harness_malloc(sizeof(double) * n), *ir;
    if (k && len < maxlen && OP(4) == 3) {
      len = OPR(len, maxlen); /* a longer impulse response */
      PROBE(ir_grow);
    }
    ir = harness_malloc(sizeof(double) * len);
    for (i = 0; i < len; i += 1) ir[i] = exact_value(i, len);
    for (i = 0; i < n; i += 1) {
      in[i] = exact_value(pos + i, 3);
      out[i] = 7e200;
    }
    if (n < len) PROBE(filter_short_segment);
    sp_convolve(in, n, ir, len, prev, carry, out);
    for (i = 0; i < n; i += 1)
      for (j = 0; j < len; j += 1) want[pos + i + j] += in[i] * ir[j];
    compare("wrong-stream", out, want + pos, n, 0, "convolved segment", 0);
    for (i = 0; i + 1 < len; i += 1)
      if (carry[i] != want[pos + n + i]) sim_violation("wrong-stream", "the carryover has the value %g instead of %g at %u", carry[i], want[pos + n + i], i);
    sim_hash_bytes(out, sizeof(double) * n);
    prev = len - 1;
    pos += n;
    sim_free(in);
    sim_free(out);
    sim_free(ir);
  }
  sim_free(carry);
}
/* very long impulse responses or segments */
static void convolve_large(void) {
  u32 len = OP(2) ? OPR(1, 4) : OPR(65530, 66500), nseg = OPR(2, 3), k, n, i, j, pos = 0, size;
  double *carry, *want, *in, *out, *ir;
  carry = out_alloc(len);
  ir = out_alloc(len);
  size = 4 * 67000 + len;
  want = out_alloc(size);
  memset(carry, 0, sizeof(double) * len);
  memset(want, 0, sizeof(double) * size);
  for (i = 0; i < len; i += 1) ir[i] = exact_value(i, 2);
  sim_desc("convolution with %u values in %u large segments", len, nseg);
  for (k = 0; k < nseg; k += 1) {
    n = len > 4 ? OPR(1, 3) : OPR(65530, 66500);
    in = out_alloc(n);
    out = out_alloc(n);
    for (i = 0; i < n; i += 1) in[i] = exact_value(pos + i, 3);
    sp_convolve(in, n, ir, len, k ? len - 1 : 0, carry, out);
    for (i = 0; i < n; i += 1)
      for (j = 0; j < len; j += 1) want[pos + i + j] += in[i] * ir[j];
    compare("wrong-stream", out, want + pos, n, 0, "convolved large segment", 0);
    for (i = 0; i + 1 < len; i += 1)
      if (carry[i] != want[pos + n + i]) sim_violation("wrong-stream", "the carryover has the value %g instead of %g at %u", carry[i], want[pos + n + i], i);
    pos += n;
  }
  PROBE(filter_large);
}
/* oscillators keep their phase */
static void oscillator(void) {
  u32 total = OPR(1, 300), i, n, pos, tsize, frq, phase0;
  int which = OP(3), use_amod = OP(2), use_fmod = OP(2);
  double *table, *amod, *whole, *part, amp = (1 + OP(8)) / 8.0;
  sp_time_t *fmod, phs, phs2;
  tsize = which == 0 ? OPR(1, 64) : which == 1 ? sp_rate : sp_rate * sp_sine_lfo_factor;
  table = harness_malloc(sizeof(double) * tsize);
  for (i = 0; i < tsize; i += 1) table[i] = exact_value(i, 9);
  amod = harness_malloc(sizeof(double) * total);
  fmod = harness_malloc(sizeof(sp_time_t) * total);
  whole = harness_malloc(sizeof(double) * total);
  part = harness_malloc(sizeof(double) * total);
  frq = OP(3) == 2 ? OPR(0, 3 * tsize) : OPR(0, 20);
  for (i = 0; i < total; i += 1) {
    amod[i] = exact_value(i, 2);
    fmod[i] = OP(2) ? frq : (i * 7) % (2 * tsize);
    whole[i] = part[i] = exact_value(i, 1);
  }
  phase0 = OP(2) ? 0 : OP(3) ? OP(tsize) : OP(2) ? tsize * OPR(1, 2) : OP(4 * tsize); /* a state from a longer wave form */
  phs = phs2 = phase0;
  sim_desc("oscillator %d, %u samples, table %u%s%s, phase %u", which, total, tsize, use_amod ? ", amplitude modulation" : "", use_fmod ? ", frequency modulation" : "", phase0);
#define OSC(n, o, phsp, out) \
  if (which == 0) sp_wave(n, table, tsize, amp, use_amod ? amod + (o) : 0, frq, use_fmod ? fmod + (o) : 0, phsp, out); \
  else if (which == 1) sp_sine(n, amp, use_amod ? amod + (o) : 0, frq, use_fmod ? fmod + (o) : 0, phsp, out); \
  else sp_sine_lfo(n, amp, use_amod ? amod + (o) : 0, frq, use_fmod ? fmod + (o) : 0, phsp, out)
  OSC(total, 0, &phs, whole);
  for (pos = 0; pos < total; pos += n) {
    n = OPR(0, OP(2) ? 6 : 80);
    if (n > total - pos) n = total - pos;
    OSC(n, pos, &phs2, part + pos);
    if (phs2 >= tsize) sim_violation("wrong-stream", "the phase %u is outside of the wave form of %u samples", phs2, tsize);
  }
  if (phs != phs2) sim_violation("wrong-stream", "the phase is %u after segments but %u after processing at once", phs2, phs);
  for (i = 0; i < total; i += 1)
    if (part[i] != whole[i]) sim_violation("wrong-stream", "an oscillator gives %g instead of %g at %u when processed in segments", part[i], whole[i], i);
  /* the phase is the sum of all frequencies */
  {
    u64 p = phase0;
    for (i = 0; i < total; i += 1) p += use_fmod ? fmod[i] : frq;
    if (p % tsize != phs) sim_violation("wrong-stream", "the phase is %u instead of %u", phs, (u32)(p % tsize));
    if (p >= tsize) PROBE(phase_wrap);
    p = phase0;
    if (use_amod)
      for (i = 0; i < total; i += 1) {
        double v = exact_value(i, 1) + amp * amod[i] * (which == 0 ? table : which == 1 ? sp_sine_table : sp_sine_table_lfo)[p % tsize];
        if (!(fabs(v - whole[i]) < 1e-9)) sim_violation("wrong-stream", "sample %u of an oscillator is %g instead of %g", i, whole[i], v);
        p += use_fmod ? fmod[i] : frq;
      }
  }
  if (!phase0) { /* without phase state: starts at zero */
    for (i = 0; i < total; i += 1) part[i] = exact_value(i, 1);
    OSC(total, 0, 0, part);
    for (i = 0; i < total; i += 1)
      if (part[i] != whole[i]) sim_violation("wrong-stream", "an oscillator without phase state gives %g instead of %g at %u", part[i], whole[i], i);
  }
  sim_hash_bytes(whole, sizeof(double) * total);
  sim_free(table);
  sim_free(amod);
  sim_free(fmod);
  sim_free(whole);
  sim_free(part);
}
static void phases(void) {
  u32 n = OPR(1, 60), i, cycle = OPR(1, 500), a = 0, b = 0, d, da = OP(2);
  u64 sa = 0, sb = 0;
  sim_desc("%u phase changes in a cycle of %u", n, cycle);
  for (i = 0; i < n; i += 1) {
    d = OP(3) == 2 ? OP(5 * cycle) : OP(20);
    double f = d + (da ? OP(4) / 4.0 : 0);
    a = sp_phase(a, d, cycle);
    sa += d;
    b = sp_phase_float(b, f, cycle);
    sb += (u64)ceil(f);
    if (a != sa % cycle) sim_violation("wrong-stream", "the phase is %u instead of %u", a, (u32)(sa % cycle));
    if (b != sb % cycle) sim_violation("wrong-stream", "the phase is %u instead of %u", b, (u32)(sb % cycle));
  }
}
static void moving_average(void) {
  u32 r = OP(20) == 19 ? OP(100) : OPR(1, 12), size = 2 * r + 2 + OP(20), nseg = OPR(1, 6), k, i, total = size * nseg;
  double* x = out_alloc(total + 1);
  sim_desc("moving average of radius %u over %u segments of %u", r, nseg, size);
  for (i = 0; i < total; i += 1) x[i] = exact_value(i, 4);
  for (k = 0; k < nseg; k += 1) {
    double *in = harness_malloc(sizeof(double) * size), *out = harness_malloc(sizeof(double) * size), *prev = 0, *next = 0;
    int hide_prev = OP(6) == 5, hide_next = OP(6) == 5;
    memcpy(in, x + k * size, sizeof(double) * size);
    if (k && !hide_prev) {
      prev = harness_malloc(sizeof(double) * size);
      memcpy(prev, x + (k - 1) * size, sizeof(double) * size);
    }
    if (k + 1 < nseg && !hide_next) {
      u32 m = OP(2) ? r : size; /* at least the radius */
      next = harness_malloc(sizeof(double) * m);
      memcpy(next, x + (k + 1) * size, sizeof(double) * m);
    }
    for (i = 0; i < size; i += 1) out[i] = 3e99;
    sp_moving_average(in, size, prev, next, r, out);
    for (i = 0; i < size; i += 1) {
      double sum = 0;
      for (long j = (long)i - r; j <= (long)(i + r); j++) {
        if (j < 0) sum += prev ? prev[size + j] : -in[-j];
        else if (j >= (long)size) sum += next ? next[j - size] : -in[2 * (size - 1) - j];
        else sum += in[j];
      }
      if (!(fabs(out[i] - sum / (2 * r + 1)) <= 1e-9))
        sim_violation("wrong-stream", "the moving average at %u of segment %u (%s previous, %s next) is %.12g instead of %.12g", i, k, prev ? "with" : "without", next ? "with" : "without", out[i], sum / (2 * r + 1));
    }
    sim_hash_bytes(out, sizeof(double) * size);
    if (prev) sim_free(prev);
    if (next) sim_free(next);
    sim_free(in);
    sim_free(out);
  }
}
void scen_stream_other(void) {
  sim_faults_setup(FM_HEAP);
  lib_init(0, CHL, 50);
  u64 mark = sim_heap_mark();
  if (OP(400) == 77) convolve_large();
  switch (OP(7)) {
  case 0:
  case 1: convolve_direct(); break;
  case 2:
  case 3: oscillator(); break;
  case 4: phases(); break;
  default: moving_average();
  }
  sim_nontrivial();
  sim_heap_check();
  sim_leak_check(mark, "after processing a stream");
  lib_end("after processing streams");
}
