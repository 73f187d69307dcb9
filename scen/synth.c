/* Channels of noise events (C24). One channel of each event passes the white noise through, so that the sound of the others,
   filtered, shared, changing and limited, follows from it by convolution. Wave events have a complete model in common.c. */
#include "common.h"
#include <string.h>

#define SN 420   /* longest event */
#define SEV 2    /* events, one after the other */
typedef struct {
  u32 start, dur, p;          /* p: the channel that passes the noise through */
  u32 ncc;
  int reject, mod, failed;
  sp_noise_event_config_t config; /* as given */
  sp_noise_event_config_t live;
  sp_noise_event_config_t* new_config;
  double* amod[CHL];
  sp_time_t *fmod[CHL], *wmod[CHL];
} sev;
static sev ev[SEV];
static sp_sample_t* got[CHL];
static double w[SN], f0[SN], want_f[SN], sum_want[CHL][SN];
static u8 w_known[SN], f0_known[SN], want_known[SN], sum_known[CHL][SN];

typedef struct {
  u32 frq, wdt, trnl, trnh;
  sp_time_t *fmod, *wmod;
  double amp;
  double* amod;
  int shared;
  u32 channel;
} eff;
/* the documented defaults */
NOINST static eff effective(const sp_noise_event_config_t* c, u32 i) {
  const sp_noise_event_channel_config_t *a = c->channel_config, *b = c->channel_config + i;
  eff e = { a->frq, a->wdt, a->trnl, a->trnh, a->fmod, a->wmod, a->amp, a->amod, 0, b->channel };
  if (!i) return e;
  e.shared = 1;
  if (!b->use) return e;
  e.amp = b->amp;
  if (b->amod) e.amod = b->amod;
  if (!(b->frq || b->wdt || b->fmod || b->wmod || b->trnl || b->trnh)) return e;
  e.shared = 0;
  e.frq = b->frq;
  if (b->wdt) e.wdt = b->wdt;
  if (b->trnl) e.trnl = b->trnl;
  if (b->trnh) e.trnh = b->trnh;
  if (b->fmod) e.fmod = b->fmod;
  if (b->wmod) e.wmod = b->wmod;
  return e;
}
static void get_ir(const eff* e, int reject, u32 t, double** ir, sp_time_t* len) {
  double f = e->fmod ? e->fmod[t] : e->frq, d = e->wmod ? e->wmod[t] : e->wdt, r = sp_rate;
  if (sp_windowed_sinc_bp_br_ir(f / r, (f + d) / r, e->trnl / r, e->trnh / r, reject, ir, len).id) sim_violation("unexpected-failure", "an impulse response can not be created");
}
NOINST static double limit1(double a) { return a < -1 ? -1 : a > 1 ? 1 : a; }
/* the noise of the event, from the channel that passes it through. with reject it is delayed */
static u32 find_noise(const sev* s, const sp_sample_t* out) {
  eff e = effective(&s->config, s->p);
  double* ir;
  sp_time_t len;
  u32 d;
  get_ir(&e, s->reject, 0, &ir, &len);
  d = (len - 1) / 2;
  sim_free(ir);
  for (u32 t = 0; t < s->dur; t++) {
    w_known[t] = t + d < s->dur;
    w[t] = w_known[t] ? out[t + d] / (e.amp * e.amod[t + d]) : 0;
  }
  return d;
}
static void model_channel(const sev* s, u32 i, const u32* cuts, u32 ncuts) {
  eff e = effective(&s->config, i);
  u32 res = s->mod ? s->config.resolution : s->dur, k, t, x, y, z, warm = 0;
  double* ir;
  sp_time_t len;
  memset(want_f, 0, sizeof want_f);
  for (k = 0; k + 1 < ncuts; k += 1) {
    x = cuts[k] > s->start ? cuts[k] - s->start : 0;
    y = cuts[k + 1] > s->start ? cuts[k + 1] - s->start : 0;
    if (y > s->dur) y = s->dur;
    for (; x < y; x = z) {
      z = x + res < y ? x + res : y;
      get_ir(&e, s->reject, x, &ir, &len);
      if (len > warm) warm = len;
      for (t = x; t < z; t += 1)
        for (u32 j = 0; j < len && t + j < s->dur; j += 1) want_f[t + j] += w[t] * ir[j];
      sim_free(ir);
    }
  }
  get_ir(&e, s->reject, 0, &ir, &len);
  sim_free(ir);
  for (t = 0; t < s->dur; t += 1) want_known[t] = w_known[t] && t + 1 >= warm;
}
static void check_event(const sev* s, int index, const u32* cuts, u32 ncuts) {
  u32 i, t, c, compared = 0;
  eff e = effective(&s->config, s->p), e0 = effective(&s->config, 0);
  double power = 0;
  u32 n = 0;
  find_noise(s, got[e.channel] + s->start);
  for (t = 0; t < s->dur; t += 1)
    if (w_known[t]) {
      if (!(fabs(w[t]) <= 1 + 1e-6)) sim_violation("wrong-noise", "noise event %d: the noise before filtering is %g at %u", index, w[t], t);
      power += w[t] * w[t];
      n += 1;
    }
  if (n >= 100 && (power / n < 0.15 || power / n > 0.6)) sim_violation("wrong-noise", "noise event %d: the noise before filtering has power %g", index, power / n);
  for (t = 0; t < s->dur; t += 1) {
    f0[t] = got[e0.channel][s->start + t] / (e0.amp * e0.amod[t]);
    f0_known[t] = 1;
  }
  memset(sum_want, 0, sizeof sum_want);
  memset(sum_known, 1, sizeof sum_known);
  for (i = 0; i < s->ncc; i += 1) {
    e = effective(&s->config, i);
    sim_trace("channel %u of noise event %d:%s%s frq %u wdt %u trnl %u trnh %u%s%s amp %g, output %u%s, resolution %u, rate %u", i, index, i == s->p ? " unfiltered" : "", e.shared ? " shared" : "", e.frq, e.wdt, e.trnl, e.trnh, e.fmod ? " fmod" : "", e.wmod ? " wmod" : "", e.amp, e.channel, s->reject ? ", reject" : "", s->config.resolution, sp_rate);
    if (i == s->p) for (t = 0; t < s->dur; t += 1) want_f[t] = got[e.channel][s->start + t] / (e.amp * e.amod[t]), want_known[t] = 1;
    else if (i && e.shared) memcpy(want_f, f0, sizeof f0), memcpy(want_known, f0_known, sizeof f0_known);
    else model_channel(s, i, cuts, ncuts);
    for (t = 0; t < s->dur; t += 1) {
      sum_want[e.channel][t] += limit1(e.amp * e.amod[t] * want_f[t]);
      sum_known[e.channel][t] &= want_known[t];
    }
  }
  for (c = 0; c < CHL; c += 1)
    for (t = 0; t < s->dur; t += 1)
      if (sum_known[c][t]) {
        double d = got[c][s->start + t] - sum_want[c][t];
        compared += 1;
        if (!(fabs(d) < 1e-6)) sim_violation("wrong-channel", "noise event %d: sample %u of channel %u is %.10g instead of %.10g", index, t, c, got[c][s->start + t], sum_want[c][t]);
      }
  sim_hash_u64(compared);
  /* filters are used to once before, so that the sound does not have to build up: the end of earlier noise is heard at the beginning */
  for (i = 0; i < s->ncc; i += 1) {
    double* ir;
    sp_time_t len;
    double tail = 0, difference = 0, rest = 0;
    int alone = 1;
    e = effective(&s->config, i);
    for (c = 0; c < s->ncc; c += 1) alone &= c == i || effective(&s->config, c).channel != e.channel;
    if (i == s->p || (i && e.shared) || !alone) continue;
    model_channel(s, i, cuts, ncuts);
    get_ir(&e, s->reject, 0, &ir, &len);
    for (t = len - 1; t > 0; t -= 1) {
      rest += fabs(ir[t]);
      double a = e.amp * e.amod[t - 1 < s->dur ? t - 1 : 0], o = t - 1 < s->dur ? got[e.channel][s->start + t - 1] : 0;
      if (t - 1 >= s->dur || !w_known[t - 1] || fabs(a) < 0.05 || fabs(o) > 0.999) continue;
      if (rest > tail) tail = rest;
      if (fabs(o / a - want_f[t - 1]) > difference) difference = fabs(o / a - want_f[t - 1]);
    }
    sim_free(ir);
    if (tail > 0.05 && difference < 1e-9) sim_violation("wrong-noise", "noise event %d: channel %u starts with a filter that was not used before", index, i);
  }
}
NOINST static void gen_sev(sev* s) {
  sp_noise_event_config_t* c;
  u32 i, t, rot;
  status_t st;
  memset(s, 0, sizeof *s);
  s->dur = OPR(1, 24) * OPR(1, SN / 24);
  s->reject = OP(3) == 2;
  s->config = sp_noise_event_config_defaults();
  c = &s->config;
  for (t = 0; t < CHL; t += 1) {
    const sp_noise_event_channel_config_t* x = c->channel_config + t;
    if (x->channel != t || x->amp != 1 || !x->use != !!t || x->amod || x->fmod || x->wmod || x->filter_state || x->frq || x->wdt != (sp_frq_t)sp_max_frq || x->trnl != (sp_frq_t)(sp_rate * 0.08) || x->trnh != (sp_frq_t)(sp_rate * 0.08)) sim_violation("wrong-defaults", "channel %u of the defaults for noise events differs from what is documented", t);
  }
  if (c->is_reject || c->channel_count != CHL || c->resolution != sp_default_resolution) sim_violation("wrong-defaults", "the defaults for noise events differ from what is documented");
  if (OP(2)) { /* an allocated one */
    u32 n = OPR(1, 3);
    sp_noise_event_config_t* a;
    st = n > 1 ? sp_noise_event_config_new_n(n, &a) : sp_noise_event_config_new(&a);
    if (st.id) sim_violation("unexpected-failure", "an event configuration can not be allocated");
    for (i = 0; i < n; i += 1)
      for (t = 0; t < CHL; t += 1) {
        const sp_noise_event_channel_config_t *x = a[i].channel_config + t, *y = c->channel_config + t;
        if (x->channel != t || x->amp != 1 || x->use != y->use || x->amod || x->fmod || x->wmod || x->filter_state || x->frq != y->frq || x->wdt != y->wdt || x->trnl != y->trnl || x->trnh != y->trnh) sim_violation("wrong-defaults", "channel %u of the new noise event configuration %u differs from the defaults", t, i);
        if (a[i].channel_count != c->channel_count || a[i].resolution != c->resolution || a[i].is_reject != c->is_reject) sim_violation("wrong-defaults", "the new noise event configuration %u differs from the defaults", i);
      }
    *c = a[OP(n)];
    sim_free(a);
  }
  s->ncc = OPR(1, CHL);
  c->channel_count = s->ncc;
  c->is_reject = s->reject;
  c->resolution = OP(2) ? OPR(1, 16) : OPR(1, 200);
  s->p = OP(s->ncc);
  rot = OP(CHL);
  for (i = 0; i < s->ncc; i += 1) {
    sp_noise_event_channel_config_t* cc = c->channel_config + i;
    int exclusive = i == s->p || !i;
    cc->use = 1;
    cc->channel = (i + rot) % CHL;
    if (!exclusive && s->ncc > 2 && OP(4) == 3) { /* together with another one */
      for (t = 1; t < i; t += 1)
        if (t != s->p) cc->channel = c->channel_config[t].channel;
    }
    cc->amp = exclusive ? 0.125 : 0.25 * (1 << OP(6));
    if (!i || OP(2)) {
      s->amod[i] = harness_malloc(sizeof(double) * s->dur);
      for (t = 0; t < s->dur; t += 1) s->amod[i][t] = (exclusive ? 0.25 : -0.5) + ((t * 3 + i) % 5) * 0.25;
      if (exclusive) for (t = 0; t < s->dur; t += 1) if (!s->amod[i][t]) s->amod[i][t] = 0.5;
      cc->amod = s->amod[i];
    }
    cc->frq = cc->wdt = cc->trnl = cc->trnh = 0;
    if (!i) {
      cc->trnl = OPR(sp_rate / 12 + 1, sp_rate / 3);
      cc->trnh = s->reject && s->p == 0 ? cc->trnl : OPR(sp_rate / 12 + 1, sp_rate / 3);
    }
    if (i == s->p) { /* what it inherits must not change it */
      if (s->reject) {
        cc->frq = OPR(1, sp_rate / 3);
        cc->trnl = cc->trnh = i ? OPR(sp_rate / 12 + 1, sp_rate / 3) : cc->trnl;
        s->wmod[i] = harness_malloc(sizeof(sp_time_t) * s->dur);
        for (t = 0; t < s->dur; t += 1) s->wmod[i][t] = 0;
        cc->wmod = s->wmod[i];
        if (i && c->channel_config[0].fmod) {
          s->fmod[i] = harness_malloc(sizeof(sp_time_t) * s->dur);
          for (t = 0; t < s->dur; t += 1) s->fmod[i][t] = cc->frq;
          cc->fmod = s->fmod[i];
        }
      } else {
        cc->wdt = sp_rate;
        if (i && c->channel_config[0].fmod) {
          s->fmod[i] = harness_malloc(sizeof(sp_time_t) * s->dur);
          for (t = 0; t < s->dur; t += 1) s->fmod[i][t] = 0;
          cc->fmod = s->fmod[i];
        }
        if (i && c->channel_config[0].wmod) {
          s->wmod[i] = harness_malloc(sizeof(sp_time_t) * s->dur);
          for (t = 0; t < s->dur; t += 1) s->wmod[i][t] = sp_rate;
          cc->wmod = s->wmod[i];
        }
      }
      continue;
    }
    if (i) switch (OP(4)) {
      case 0: break;      /* shares the noise of the first */
      case 1: cc->use = 0; break;
      case 2: cc->frq = OPR(1, sp_rate / 2); break; /* the rest like the first */
      default:
        cc->frq = OP(4) ? OPR(1, sp_rate / 2) : 0;
        cc->wdt = OP(3) ? OPR(1, sp_rate / 2) : 0;
        cc->trnl = OP(3) ? OPR(sp_rate / 12 + 1, sp_rate / 3) : 0;
        cc->trnh = OP(3) ? OPR(sp_rate / 12 + 1, sp_rate / 3) : 0;
      }
    else {
      cc->frq = OP(5) ? OPR(1, sp_rate / 2) : 0;
      cc->wdt = OPR(1, sp_rate / 2);
    }
    if (cc->use && (!i || cc->frq || cc->wdt)) {
      if (OP(3) == 2) {
        s->fmod[i] = harness_malloc(sizeof(sp_time_t) * s->dur);
        for (t = 0; t < s->dur; t += 1) s->fmod[i][t] = (t * 3 + i) % (sp_rate / 2);
        cc->fmod = s->fmod[i];
      }
      if (OP(3) == 2) {
        s->wmod[i] = harness_malloc(sizeof(sp_time_t) * s->dur);
        for (t = 0; t < s->dur; t += 1) s->wmod[i][t] = 1 + (t * 5 + i) % (sp_rate / 2);
        cc->wmod = s->wmod[i];
      }
    }
  }
  for (i = 0; i < s->ncc; i += 1)
    if (s->fmod[i] || s->wmod[i]) s->mod = 1;
}
/* many short events: the first sample is as loud as all later ones would be */
static void noise_first_samples(void) {
  sp_noise_event_config_t d;
  double power[CHL] = { 0 }, amod[4];
  u32 i, k, c, dur = OPR(1, 4), reject = OP(3) == 2, ncc = OPR(1, CHL);
  const u32 rounds = 240;
  lib_init(0, CHL, draw_rate(OPR(60, 200)));
  d = sp_noise_event_config_defaults();
  d.channel_count = ncc;
  d.is_reject = reject;
  for (k = 0; k < 4; k += 1) amod[k] = 0.5;
  for (i = 0; i < ncc; i += 1) {
    sp_noise_event_channel_config_t* cc = d.channel_config + i;
    cc->use = 1;
    cc->channel = i;
    cc->amp = 0.25;
    if (!i) cc->amod = amod;
    cc->frq = OPR(1, sp_rate / 4);
    cc->wdt = OPR(sp_rate / 16, sp_rate / 4);
    cc->trnl = cc->trnh = OP(2) ? OPR(sp_rate / 30 + 1, sp_rate / 12) : OPR(sp_rate / 12 + 1, sp_rate / 3);
  }
  sim_desc("%u noise events of %u samples with %u channels, rate %u", rounds, dur, ncc, sp_rate);
  for (k = 0; k < rounds; k += 1) {
    sp_declare_event(e);
    sp_event_t* ep = &e;
    sp_noise_event_config_t live = d;
    sp_block_t b = { 0 };
    double out[CHL][4] = { { 0 } };
    sp_noise_event(ep, (&live));
    e.end = dur;
    if ((e.prepare)(&e).id) sim_violation("unexpected-failure", "a noise event can not be prepared");
    e.prepare = 0;
    b.channel_count = CHL;
    b.size = dur;
    for (c = 0; c < CHL; c += 1) b.samples[c] = out[c];
    if ((e.generate)(0, dur, b, &e).id) sim_violation("unexpected-failure", "a noise event can not be generated");
    sp_event_free(e);
    for (c = 0; c < CHL; c += 1) power[c] += out[c][0] * out[c][0];
  }
  for (i = 0; i < ncc; i += 1) {
    eff e = effective(&d, i);
    double *ir, sum = 0, r;
    sp_time_t len;
    get_ir(&e, reject, 0, &ir, &len);
    for (k = 0; k < len; k += 1) sum += ir[k] * ir[k];
    sim_free(ir);
    /* evenly distributed noise between -1 and 1 has the power 1/3 */
    r = power[i] / rounds / (sum / 3 * e.amp * e.amp * 0.25);
    sim_trace("channel %u: filter of length %u, first samples with relative power %g", i, (u32)len, r);
    sim_hash_u64((u64)(r * 1000));
    if (!(r > 0.4 && r < 1.9)) sim_violation("wrong-noise", "the first samples of %u noise events have %g of the expected power in channel %u", rounds, r, i);
  }
  PROBE(noise_first);
  sim_nontrivial();
  lib_end("after rendering noise");
}
void scen_noise_channels(void) {
  u32 n = OPR(1, SEV), i, k, c, x, y, len = 0, cuts[SN * SEV / 2], ncuts, style;
  status_t s = { 0 };
  sim_faults_setup(FM_WAKE | FM_SLEEP | FM_HEAP);
  if (OP(12) == 11) {
    noise_first_samples();
    return;
  }
  lib_init(OPR(1, 3), CHL, OPR(60, 200));
  for (i = 0; i < n; i += 1) {
    gen_sev(ev + i);
    ev[i].start = len + (OP(3) ? 0 : OP(10));
    len = ev[i].start + ev[i].dur;
  }
  for (c = 0; c < CHL; c += 1) {
    got[c] = harness_malloc(sizeof(double) * len);
    memset(got[c], 0, sizeof(double) * len);
  }
  ncuts = gen_cuts(0, len, cuts, SN * SEV / 2);
  style = OP(3);
  sim_desc("%u noise events of %u and %u samples, %u channels, %s, %u blocks", n, ev[0].dur, n > 1 ? ev[1].dur : 0, ev[0].ncc, style ? style == 1 ? "list" : "list, parallel" : "alone", ncuts - 1);
  if (ncuts > 2) sim_nontrivial();
  if (!style)
    for (i = 0; i < n; i += 1) {
      sp_declare_event(e);
      sp_event_t* ep = &e;
      sp_block_t b = { 0 };
      ev[i].live = ev[i].config;
      sp_noise_event(ep, (&ev[i].live));
      e.end = ev[i].dur;
      if ((e.prepare)(&e).id) sim_violation("unexpected-failure", "a noise event can not be prepared");
      e.prepare = 0;
      for (k = 0; k + 1 < ncuts; k += 1) {
        x = cuts[k] > ev[i].start ? cuts[k] - ev[i].start : 0;
        y = cuts[k + 1] > ev[i].start ? cuts[k + 1] - ev[i].start : 0;
        if (y > ev[i].dur) y = ev[i].dur;
        if (x >= y) continue;
        b.channel_count = CHL;
        b.size = y - x;
        for (c = 0; c < CHL; c += 1) b.samples[c] = got[c] + ev[i].start + x;
        if ((e.generate)(x, y, b, &e).id) sim_violation("unexpected-failure", "a noise event can not be generated");
      }
      sp_event_free(e);
    }
  else {
    sp_event_list_t* list = 0;
    for (i = 0; i < n; i += 1) {
      sp_declare_event(e);
      sp_event_t* ep = &e;
      ev[i].live = ev[i].config;
      sp_noise_event(ep, (&ev[i].live));
      e.end = ev[i].dur;
      e = sp_event_schedule(e, ev[i].start, 0, 0);
      if (sp_event_list_add(&list, e).id) sim_violation("unexpected-failure", "an event can not be added");
    }
    sp_seq_events_prepare(&list);
    for (k = 0; k + 1 < ncuts; k += 1) {
      sp_block_t b = { 0 };
      b.channel_count = CHL;
      b.size = cuts[k + 1] - cuts[k];
      for (c = 0; c < CHL; c += 1) b.samples[c] = got[c] + cuts[k];
      s = style == 1 ? sp_seq(cuts[k], cuts[k + 1], b, &list) : sp_seq_parallel(cuts[k], cuts[k + 1], b, &list);
      if (s.id) sim_violation("unexpected-failure", "rendering noise fails with %d", s.id);
    }
    sp_event_list_free(&list);
  }
  for (i = 0; i < n; i += 1) {
    const sp_noise_event_channel_config_t* cc = ev[i].live.channel_config;
    for (c = 0; c < ev[i].ncc; c += 1)
      if (cc[c].filter_state) sim_violation("lifecycle", "a filter state remains in the configuration of a noise event after it was freed");
    check_event(ev + i, i, cuts, ncuts);
    if (ev[i].mod) PROBE(noise_mod);
  }
  PROBE(noise_event);
  for (c = 0; c < CHL; c += 1) {
    sim_hash_bytes(got[c], sizeof(double) * len);
    sim_free(got[c]);
  }
  for (i = 0; i < n; i += 1)
    for (c = 0; c < CHL; c += 1) {
      sim_free(ev[i].amod[c]);
      sim_free(ev[i].fmod[c]);
      sim_free(ev[i].wmod[c]);
    }
  lib_end("after rendering noise");
}

/* wave events alone, with the default waveform or an own one, against the documented meaning of each channel's configuration */
#define WN 300
static double wave_sum[CHL][2 * WN];
static double wave_own[64];
NOINST static void check_wave_defaults(const sp_wave_event_config_t* a, u32 index) {
  u32 t;
  if (a->wvf != sp_sine_table || a->wvf_size != (sp_time_t)sp_rate || a->channel_count != CHL) sim_violation("wrong-defaults", "the new wave event configuration %u does not play a sine on all channels", index);
  for (t = 0; t < CHL; t += 1) {
    const sp_wave_event_channel_config_t* x = a->channel_config + t;
    if (x->channel != t || x->amp != 1 || !x->use != !!t || x->amod || x->fmod || x->pmod || x->frq || x->phs) sim_violation("wrong-defaults", "channel %u of the new wave event configuration %u differs from the defaults", t, index);
  }
}
NOINST static void model_wave(const sp_wave_event_config_t* c, u32 start, u32 dur) {
  u32 i, t;
  const sp_wave_event_channel_config_t* a = c->channel_config;
  for (i = 0; i < c->channel_count; i += 1) {
    const sp_wave_event_channel_config_t *b = a + i, *from = !i || b->use ? b : a;
    const double* amod = from->amod ? from->amod : a->amod;
    const sp_time_t *fmod = from->fmod ? from->fmod : a->fmod, *pmod = from->pmod ? from->pmod : a->pmod;
    u64 frq = from->frq ? from->frq : a->frq, phs = from->phs;
    for (t = 0; t < dur; t += 1) {
      u64 p = (phs + (pmod ? pmod[t] : 0)) % c->wvf_size;
      wave_sum[b->channel][start + t] += from->amp * amod[t] * c->wvf[p];
      phs = (phs + frq + (fmod ? fmod[t] : 0)) % c->wvf_size;
    }
  }
}
void scen_wave_channels(void) {
  static sp_wave_event_config_t given[2];
  static double* amod[2][CHL];
  static sp_time_t *fmod[2][CHL], *pmod[2][CHL];
  sp_wave_event_config_t* live[2];
  u32 n = OPR(1, 2), i, j, k, c, t, start[2], dur[2], len = 0, cuts[WN], ncuts, style, rate = draw_rate(OPR(2, 200)), own = OP(2);
  status_t s = { 0 };
  sim_faults_setup(FM_WAKE | FM_SLEEP | FM_HEAP);
  lib_init(OPR(1, 3), CHL, rate);
  for (i = 0; i < rate; i += 1)
    if (!(fabs(sp_sine_table[i] - sin(2 * M_PI * i / rate)) < 1e-9)) sim_violation("wrong-waveform", "sample %u of the default waveform of %u samples is %.10g", i, rate, sp_sine_table[i]);
  for (i = 0; i < 64; i += 1) wave_own[i] = ((i * 29) % 64) / 64.0 - 0.5;
  memset(wave_sum, 0, sizeof wave_sum);
  for (i = 0; i < n; i += 1) {
    sp_wave_event_config_t *a, *w = given + i;
    u32 count = OPR(1, 3), pick, rot = OP(CHL);
    if ((count > 1 ? sp_wave_event_config_new_n(count, &a) : sp_wave_event_config_new(&a)).id) sim_violation("unexpected-failure", "an event configuration can not be allocated");
    for (j = 0; j < count; j += 1) check_wave_defaults(a + j, j);
    *w = sp_wave_event_config_defaults();
    check_wave_defaults(w, count);
    pick = OP(count);
    *w = a[pick];
    sim_free(a);
    start[i] = OP(WN / 2);
    dur[i] = OPR(1, 12) * OPR(1, WN / 12);
    if (start[i] + dur[i] > len) len = start[i] + dur[i];
    if (own) {
      w->wvf = wave_own;
      w->wvf_size = OPR(1, 64);
    }
    if (OP(3)) w->channel_count = OPR(1, CHL);
    for (c = 0; c < CHL; c += 1) {
      sp_wave_event_channel_config_t* cc = w->channel_config + c;
      amod[i][c] = 0;
      fmod[i][c] = pmod[i][c] = 0;
      if (c) cc->use = OP(3) != 0;
      if (OP(3) == 2) cc->channel = (c + rot) % CHL;
      if (OP(3)) cc->amp = OP(9) * 0.25;
      if (!c || OP(2)) cc->frq = OP(6) ? OP(40) : OP(1 << 30);
      if (OP(2)) cc->phs = OP(3) == 2 ? w->wvf_size * OPR(1, 3) + OP(3) - 1 : OP(3) ? OP(w->wvf_size) : OP(1 << 30);
      if (!c || OP(3) == 2) {
        cc->amod = amod[i][c] = harness_malloc(sizeof(double) * dur[i]);
        for (t = 0; t < dur[i]; t += 1) cc->amod[t] = (int)((t * 3 + c + i) % 7) * 0.25 - 0.75;
      }
      if (OP(3) == 2) {
        u32 m = OP(5) ? 30 : 1 << 30;
        cc->fmod = fmod[i][c] = harness_malloc(sizeof(sp_time_t) * dur[i]);
        for (t = 0; t < dur[i]; t += 1) cc->fmod[t] = (t * 2654435761u + c) % m;
      }
      if (OP(3) == 2) {
        u32 m = OP(5) ? 30 : 1 << 30;
        cc->pmod = pmod[i][c] = harness_malloc(sizeof(sp_time_t) * dur[i]);
        for (t = 0; t < dur[i]; t += 1) cc->pmod[t] = (t * 2246822519u + c) % m;
      }
    }
    model_wave(w, start[i], dur[i]);
  }
  for (c = 0; c < CHL; c += 1) {
    got[c] = harness_malloc(sizeof(double) * len);
    memset(got[c], 0, sizeof(double) * len);
  }
  ncuts = gen_cuts(0, len, cuts, WN);
  style = OP(3);
  sim_desc("%u wave events of %u and %u samples, waveform of %u samples, %u channels, %s, %u blocks", n, dur[0], n > 1 ? dur[1] : 0, given[0].wvf_size, given[0].channel_count, style ? style == 1 ? "list" : "list, parallel" : "alone", ncuts - 1);
  if (ncuts > 2) sim_nontrivial();
  {
    sp_event_list_t* list = 0;
    sp_event_t es[2] = { 0 };
    for (i = 0; i < n; i += 1) {
      sp_declare_event(e);
      sp_event_t* ep = &e;
      if (sp_wave_event_config_new(&live[i]).id) sim_violation("unexpected-failure", "an event configuration can not be allocated");
      *live[i] = given[i];
      sp_wave_event(ep, live[i]);
      e.end = dur[i];
      if (!style) {
        if (e.prepare && (e.prepare)(&e).id) sim_violation("unexpected-failure", "a wave event can not be prepared");
        e.prepare = 0;
        es[i] = e;
      } else {
        e = sp_event_schedule(e, start[i], 0, 0);
        if (sp_event_list_add(&list, e).id) sim_violation("unexpected-failure", "an event can not be added");
      }
    }
    if (style) sp_seq_events_prepare(&list);
    for (k = 0; k + 1 < ncuts; k += 1) {
      sp_block_t b = { 0 };
      b.channel_count = CHL;
      if (!style) {
        for (i = 0; i < n; i += 1) {
          u32 x = cuts[k] > start[i] ? cuts[k] : start[i], y = cuts[k + 1] < start[i] + dur[i] ? cuts[k + 1] : start[i] + dur[i];
          if (x >= y) continue;
          b.size = y - x;
          for (c = 0; c < CHL; c += 1) b.samples[c] = got[c] + x;
          if ((es[i].generate)(x - start[i], y - start[i], b, es + i).id) sim_violation("unexpected-failure", "a wave event can not be generated");
        }
        continue;
      }
      b.size = cuts[k + 1] - cuts[k];
      for (c = 0; c < CHL; c += 1) b.samples[c] = got[c] + cuts[k];
      s = style == 1 ? sp_seq(cuts[k], cuts[k + 1], b, &list) : sp_seq_parallel(cuts[k], cuts[k + 1], b, &list);
      if (s.id) sim_violation("unexpected-failure", "rendering waves fails with %d", s.id);
    }
    if (style) sp_event_list_free(&list);
    else for (i = 0; i < n; i += 1) { sp_event_free(es[i]); }
  }
  for (c = 0; c < CHL; c += 1)
    for (t = 0; t < len; t += 1)
      if (!(fabs(got[c][t] - wave_sum[c][t]) < 1e-9)) sim_violation("wrong-channel", "sample %u of channel %u is %.10g instead of %.10g", t, c, got[c][t], wave_sum[c][t]);
  PROBE(wave_event);
  for (c = 0; c < CHL; c += 1) {
    sim_hash_bytes(got[c], sizeof(double) * len);
    sim_free(got[c]);
  }
  for (i = 0; i < n; i += 1) {
    sim_free(live[i]);
    for (c = 0; c < CHL; c += 1) {
      sim_free(amod[i][c]);
      sim_free(fmod[i][c]);
      sim_free(pmod[i][c]);
    }
  }
  lib_end("after rendering waves");
}
