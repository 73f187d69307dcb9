/* Paths: sampled in any sequence of ranges, from several places (C19). */
#include "common.h"
#include <string.h>
#include <stdlib.h>
#include <stddef.h>

spline_path_segment_t spline_path_bezier_arc(double x, double y, double curvature) __attribute__((weak));
void spline_path_get(spline_path_t* path, size_t start, size_t end, double* out) __attribute__((weak));

enum { S_LINE, S_MOVE, S_CONSTANT, S_BEZIER1, S_BEZIER2, S_ARC, S_PATH };
#define MAXSEG 320
typedef struct pm {
  u32 n, len; /* len: x of the end */
  double end_y;
  int bezier, constant, fractional;
  spline_path_t path;
  struct {
    int kind;
    double x0, y0, x1, y1, cy1, cy2; /* control values */
    struct pm* inner;
  } s[MAXSEG];
  spline_path_segment_t segments[MAXSEG];
} pm;
static pm pms[12];
static u32 npms;
#define CANARY 4321.5
#define PAD 3

/* draws a path and its model */
static pm* gen_path(int depth, int fractional, u32 base) {
  pm* p = pms + npms++;
  u32 i, n = OPR(1, depth ? 4 : 7), large = OP(60);
  double x = 0, y = 0;
  memset(p, 0, offsetof(pm, s));
  if (large == 59) { /* rarely many segments or long segments */
    n = OPR(8, MAXSEG);
    PROBE(path_large);
  }
  p->fractional = fractional;
  for (i = 0; i < n; i += 1) {
    int kind = OP(7);
    memset(p->s + i, 0, sizeof p->s[i]);
    double x0 = x, y0 = y, c1, c2;
    spline_path_segment_t* s = p->segments + i;
    if (base && !i) kind = OP(2) ? S_LINE : S_MOVE;
    if (kind == S_CONSTANT && i + 1 < n) kind = S_LINE;
    if (kind == S_PATH && (depth == 2 || npms >= 11)) kind = S_MOVE;
    if (kind == S_ARC && !spline_path_bezier_arc) kind = S_LINE;
    p->s[i].kind = kind;
    p->s[i].x0 = x;
    p->s[i].y0 = y;
    x += OP(5) ? OPR(1, 9) : OP(2) * OPR(1, 40);
    if (large == 58 && OP(2)) {
      x += OPR(40, 1500);
      PROBE(path_large);
    }
    if (large == 57 && !depth && !base && OP(8) == 7) { /* very long */
      x += OPR(33000, 70000);
      large = 60;
      PROBE(path_huge);
    }
    if (fractional && OP(2)) x += 0.25 * OP(4);
    if (base && !i) x = base;
    y = (int)OP(21) - 10;
    c1 = x0 + (x - x0) * 0.25 * OP(OP(4) ? 5 : 9); /* rarely behind the end, then the curve goes back */
    c2 = x0 + (x - x0) * 0.25 * OP(OP(4) ? 5 : 9);
    p->s[i].cy1 = (int)OP(21) - 10;
    p->s[i].cy2 = (int)OP(21) - 10;
    switch (kind) {
    case S_LINE: *s = spline_path_line(x, y); break;
    case S_MOVE: *s = spline_path_move(x, y); break;
    case S_CONSTANT:
      *s = spline_path_constant();
      x = x0;
      y = y0;
      p->constant = 1;
      break;
    case S_BEZIER1:
      *s = spline_path_bezier1(c1, p->s[i].cy1, x, y);
      p->s[i].cy2 = p->s[i].cy1;
      p->bezier = 1;
      PROBE(path_bezier);
      break;
    case S_BEZIER2:
      *s = spline_path_bezier2(c1, p->s[i].cy1, c2, p->s[i].cy2, x, y);
      p->bezier = 1;
      PROBE(path_bezier);
      break;
    case S_ARC:
      *s = spline_path_bezier_arc(x, y, 0.25 * OPR(1, 4));
      p->s[i].cy1 = p->s[i].cy2 = 1e9;
      p->bezier = 1;
      PROBE(path_bezier);
      break;
    case S_PATH: {
      pm* q = gen_path(depth + 1, fractional, 0);
      p->s[i].inner = q;
      *s = spline_path_path(q->path);
      x = x0 + spline_path_size(q->path);
      if (fractional) x = x0 + spline_path_end(q->path).x;
      y = q->end_y;
      if (q->bezier) p->bezier = 1;
      PROBE(path_nested);
    }
    }
    p->s[i].x1 = x;
    p->s[i].y1 = y;
    if (kind == S_CONSTANT) p->s[i].x1 = 1e18;
  }
  p->n = n;
  p->len = x;
  p->end_y = y;
  if (OP(5) == 4) { /* the segments have been used in another path before */
    static spline_path_segment_t other[MAXSEG];
    spline_path_t before;
    double used[8];
    u32 from = OP(n), m = OPR(1, n);
    for (i = 0; i < m; i += 1) other[i] = p->segments[(i + from) % n];
    if (spline_path_set(&before, other, m)) sim_violation("unexpected-failure", "spline_path_set fails");
    i = OP(20);
    if (!base && from + m <= n && OP(2)) spline_path_get(&before, i, i + OP(9), used);
    for (i = 0; i < m; i += 1) p->segments[(i + from) % n] = other[i];
    PROBE(path_reused);
  }
  if (spline_path_set(&p->path, p->segments, n)) sim_violation("unexpected-failure", "spline_path_set fails");
  return p;
}
/* known value: 1, bounds: 2, nothing is drawn: 0 */
NOINST static int path_model(pm* p, u32 t, double* lo, double* hi) {
  for (u32 i = 0; i < p->n; i++) {
    double x0 = p->s[i].x0, x1 = p->s[i].x1, y0 = p->s[i].y0, y1 = p->s[i].y1;
    if (t < x0 || t >= x1) continue;
    switch (p->s[i].kind) {
    case S_LINE: *lo = *hi = y0 + (y1 - y0) * (t - x0) / (x1 - x0); return 1;
    case S_MOVE: *lo = *hi = 0; return 1;
    case S_CONSTANT: *lo = *hi = y0; return 1;
    case S_PATH: return path_model(p->s[i].inner, t - x0, lo, hi);
    case S_ARC: return 3;
    default:
      *lo = fmin(fmin(y0, y1), fmin(p->s[i].cy1, p->s[i].cy2));
      *hi = fmax(fmax(y0, y1), fmax(p->s[i].cy1, p->s[i].cy2));
      return 2;
    }
  }
  return 0;
}
static double* path_buf;
static u32 path_size;
static int path_tight;
/* samples into memory that is surrounded by other values, or has exactly the right size */
static double* sample_begin(u32 n, double prefill) {
  u32 i, pad = path_tight ? 0 : PAD;
  path_size = n;
  path_buf = harness_malloc(sizeof(double) * (n + 2 * pad) + !n);
  for (i = 0; i < n + 2 * pad; i += 1) path_buf[i] = CANARY;
  for (i = 0; i < n; i += 1) path_buf[pad + i] = prefill;
  return path_buf + pad;
}
NOINST static void sample_end(const char* what, u32 lo, u32 hi) {
  if (!path_tight)
    for (u32 i = 0; i < PAD; i++)
      if (path_buf[i] != CANARY || path_buf[PAD + path_size + i] != CANARY) sim_violation("wrote-outside", "sampling range %u..%u of %s writes outside of the output", lo, hi, what);
  sim_free(path_buf);
}
void scen_path_ranges(void) {
  pm* p;
  spline_path_t copies[3];
  u32 len, i, k, ncopies, steps, lo = 0, hi, style, backwards = 0, base = 0;
  double *once, *out, a, b, prefill;
  int m, own[3], nested;
  sim_faults_setup(FM_HEAP);
  if (!spline_path_get) return;
  npms = 0;
  u64 mark = sim_heap_mark();
    if (OP(6) == 5) { /* what is sampled is far from the beginning */
    static const u32 bases[] = { 1000, 65530, 65536, (1u << 24) - 5, (1u << 24) + 1, 0x7fffffffu - 20, 0x80000000u, 0xffffffffu - 40000 };
    base = bases[OP(8)];
    PROBE(late_times);
  }
  p = gen_path(0, OP(4) == 3, base);
  len = p->len - base + OPR(0, 6);
  base -= base ? OP(10) : 0;
  for (i = 0; i < p->n; i += 1) sim_desc("%s%s", i ? " " : "", ((const char*[]){ "line", "move", "constant", "bezier1", "bezier2", "arc", "path" })[p->s[i].kind]);
  sim_desc(", from %u, length %u%s", base, len, p->fractional ? ", points between samples" : "");
  prefill = p->bezier ? 0 : CANARY / 3;
  /* at once */
  path_tight = 0;
  out = sample_begin(len, prefill);
  spline_path_get(&p->path, base, (size_t)base + len, out);
  once = harness_malloc(sizeof(double) * (len + 1));
  for (i = 0; i < len; i += 1) once[i] = out[i];
  sample_end("a path at once", 0, len);
  for (i = 0; i < len; i += 1) {
    m = p->fractional ? 3 : path_model(p, base + i, &a, &b);
    if (m == 0 && once[i] != prefill) sim_violation("wrote-outside", "nothing is drawn at %u but %g is written", i, once[i]);
    if (m == 1 && !(fabs(once[i] - a) <= 1e-9)) sim_violation("wrong-path", "the value at %u is %g instead of %g", i, once[i], a);
    if (m == 2 && !(once[i] >= a - 1e-9 && once[i] <= b + 1e-9)) sim_violation("wrong-path", "the value of a curve at %u is %g, outside of the range of its points %g..%g", i, once[i], a, b);
    if (m && !(once[i] == once[i])) sim_violation("wrong-path", "the value at %u is not a number", i);
    sim_hash_u64((u64)(long)(once[i] * 1000));
  }
  /* in ranges, from copies of the path in turns */
  ncopies = OPR(1, 3);
  for (i = 0; i < ncopies; i += 1) {
    copies[i] = p->path;
    own[i] = OP(4) == 3;
    if (own[i] && spline_path_set_copy(copies + i, p->segments, p->n)) sim_violation("unexpected-failure", "spline_path_set_copy fails");
  }
  for (i = 0, nested = 0; i < p->n; i += 1) nested |= p->s[i].kind == S_PATH;
  steps = OPR(2, 30);
  style = OP(4);
  for (k = 0; k < steps; k += 1) {
    spline_path_t* c = copies + OP(ncopies);
    u32 last = lo;
    switch (style) {
    case 0: /* forwards in pieces */
      lo = k ? hi : 0;
      if (lo >= len) lo = OP(3) ? 0 : OP(len + 1);
      hi = lo + OPR(1, 9);
      break;
    case 1: /* backwards */
      hi = k && lo ? lo : len;
      lo = OP(2) ? hi - OP(hi + 1) : hi > 5 ? hi - 5 : 0;
      break;
    case 2: /* one by one */
      lo = k ? lo + 1 : OP(len + 1);
      hi = lo + 1;
      break;
    default:
      lo = OP(len + 1);
      hi = lo + OP(len - lo + 1);
    }
    if (lo > len) lo = 0;
    if (hi > len) hi = len;
    if (hi < lo) hi = lo;
    if (lo < last) backwards++;
    path_tight = OP(2);
    out = sample_begin(hi - lo, prefill);
    if (!nested && OP(6) == 5) { /* without a path */
      if (spline_path_segments_get(p->segments, p->n, (size_t)base + lo, (size_t)base + hi, out)) sim_violation("unexpected-failure", "spline_path_segments_get fails");
    } else spline_path_get(c, (size_t)base + lo, (size_t)base + hi, out);
    for (i = lo; i < hi; i += 1)
      if (!(fabs(out[i - lo] - once[i]) <= 1e-9)) sim_violation("wrong-path", "the value at %u is %g when range %u..%u is sampled, but %g when everything is sampled at once", i, out[i - lo], lo, hi, once[i]);
    sample_end("a path", lo, hi);
    sim_hash_u64(lo * 1000 + hi);
  }
  sim_free(once);
  for (i = 0; i < ncopies; i += 1)
    if (own[i]) free(copies[i].segments);
  for (i = npms; i; i -= 1) spline_path_free(pms[i - 1].path);
  sim_leak_check(mark, "after sampling a path");
  sim_heap_check();
  if (backwards) PROBE(path_backwards);
  if (steps > 2) sim_nontrivial();
}
/* the functions that create arrays from points */
#define PTS 24 /* sp_path_point_count_limit */
static void one_segment(double x0, double y0, double x1, double y1, double c, u32 lo, u32 hi, double* out) {
  spline_path_t path;
  spline_path_segment_t s[2];
  s[0] = spline_path_move(x0, y0);
  s[1] = c < 1.0e-5 ? spline_path_line(x1, y1) : spline_path_bezier_arc(x1, y1, c);
  spline_path_set(&path, s, 2);
  spline_path_get(&path, lo, hi, out);
}
/* arrays of exactly the documented length, so that every access behind them is noticed */
static double* exact(const double* a, u32 n) {
  double* r = harness_malloc(n * sizeof(double) + !n);
  if (n) memcpy(r, a, n * sizeof(double));
  return r;
}
void scen_path_arrays(void) {
  status_declare;
  double x[PTS + 1], y[PTS + 1], c[PTS + 1], xs[PTS + 1], f[PTS + 1], t = 1, part[512];
  sp_sample_t* out = 0;
  sp_time_t* times = 0;
  u32 n, i, k, seg, len, kind = OP(10), curved;
  double *hx, *hf, *hy, *hz, *hc;
  n = kind == 0 || kind == 1 || kind == 4 || kind == 5 ? (OP(4) == 3 ? OPR(2, PTS) : OPR(2, 6)) : kind < 6 ? OPR(2, 5) : OPR(3, 5);
  sim_faults_setup(FM_HEAP);
  u64 mark = sim_heap_mark();
  x[0] = 0;
  for (i = 1; i + 1 < n; i += 1) x[i] = x[i - 1] + OPR(1, 9);
  len = x[n - 2] + OPR(1, 9);
  if (n == 2) len = OPR(1, 20);
  if (kind > 3) /* fractions of the length are exact */
    for (i = len, len = 1; len < i;) len *= 2;
  x[n - 1] = len;
  curved = OP(3) == 2;
  for (i = 0; i < n; i += 1) {
    y[i] = OP(20);
    c[i] = curved ? 0.25 * OP(4) : 0;
  }
  for (i = 1; i + 1 < n; i += 1) {
    xs[i - 1] = x[i];
    f[i - 1] = (x[i] - x[i - 1]) / len;
  }
  sim_desc("function %u, %u points, length %u", kind, n, len);
  hx = exact(xs, n - 2), hf = exact(f, n - 2), hy = exact(y, n), hz = exact(y + 1, n - 2), hc = exact(c, n - 1);
#define X2 x[1], x[2]
#define X3 X2, x[3]
#define Y2 y[0], y[1]
#define Y3 Y2, y[2]
#define Y4 Y3, y[3]
#define Y5 Y4, y[4]
#define C3 c[0], c[1]
#define C4 C3, c[2]
#define C5 C4, c[3]
  switch (kind) {
  case 0: status = sp_path_samples(&out, len, n, hx, hy, OP(2) || curved ? hc : 0); break;
  case 1: status = sp_path_times(&times, len, n, hx, hy, OP(2) || curved ? hc : 0); break;
  case 2:
    if (!curved) switch (n) {
      case 2: status = sp_path_samples2(&out, len, Y2); break;
      case 3: status = sp_path_samples3(&out, len, x[1], Y3); break;
      case 4: status = sp_path_samples4(&out, len, X2, Y4); break;
      default: status = sp_path_samples5(&out, len, X3, Y5);
      }
    else switch (n) {
      case 2: status = sp_path_samples_c2(&out, len, Y2, c[0]); break;
      case 3: status = sp_path_samples_c3(&out, len, x[1], Y3, C3); break;
      case 4: status = sp_path_samples_c4(&out, len, X2, Y4, C4); break;
      default: status = sp_path_samples_c5(&out, len, X3, Y5, C5);
      }
    break;
  case 3:
    if (!curved) switch (n) {
      case 2: status = sp_path_times2(&times, len, Y2); break;
      case 3: status = sp_path_times3(&times, len, x[1], Y3); break;
      case 4: status = sp_path_times4(&times, len, X2, Y4); break;
      default: status = sp_path_times5(&times, len, X3, Y5);
      }
    else switch (n) {
      case 2: status = sp_path_times_c2(&times, len, Y2, c[0]); break;
      case 3: status = sp_path_times_c3(&times, len, x[1], Y3, C3); break;
      case 4: status = sp_path_times_c4(&times, len, X2, Y4, C4); break;
      default: status = sp_path_times_c5(&times, len, X3, Y5, C5);
      }
    break;
  case 4: /* envelope from zero to zero. points in fractions, each relative to the previous one */
    status = sp_envelope_zero(&out, len, n, hf, hz, curved ? hc : 0);
    y[0] = y[n - 1] = 0;
    break;
  case 5: /* scaled */
    t = 0.5 * OPR(1, 4);
    status = sp_envelope_scaled(&times, len, n, t, hf, hy, curved ? hc : 0);
    break;
  case 6:
  case 7:
    if (!curved) switch (n) {
      case 3: status = sp_envelope_zero3(&out, len, f[0], y[1]); break;
      case 4: status = sp_envelope_zero4(&out, len, f[0], f[1], y[1], y[2]); break;
      default: status = sp_envelope_zero5(&out, len, f[0], f[1], f[2], y[1], y[2], y[3]);
      }
    else switch (n) {
      case 3: status = sp_envelope_zero_c3(&out, len, f[0], y[1], C3); break;
      case 4: status = sp_envelope_zero_c4(&out, len, f[0], f[1], y[1], y[2], C4); break;
      default: status = sp_envelope_zero_c5(&out, len, f[0], f[1], f[2], y[1], y[2], y[3], C5);
      }
    y[0] = y[n - 1] = 0;
    break;
  default:
    curved = 0;
    t = 0.5 * OPR(1, 4);
    switch (n) {
    case 3: status = sp_envelope_scaled3(&times, len, t, f[0], Y3); break;
    case 4: status = sp_envelope_scaled4(&times, len, t, f[0], f[1], Y4); break;
    default: status = sp_envelope_scaled5(&times, len, t, f[0], f[1], f[2], Y5);
    }
  }
  sim_free(hx), sim_free(hf), sim_free(hy), sim_free(hz), sim_free(hc);
  for (i = 0; i < n; i += 1) y[i] *= t;
  if (status_is_failure) sim_violation("unexpected-failure", "creating a path fails with %d", status.id);
  for (seg = k = 0; k < len; k += 1) {
    double lo, hi, want;
    while (seg + 2 < n && k >= x[seg + 1]) seg += 1;
    lo = fmin(y[seg], y[seg + 1]);
    hi = fmax(y[seg], y[seg + 1]);
    if (curved && c[seg]) { /* like this part of a path alone */
      one_segment(x[seg], y[seg], x[seg + 1], y[seg + 1], c[seg], x[seg], x[seg + 1], part);
      want = part[k - (u32)x[seg]];
    } else want = y[seg] + (y[seg + 1] - y[seg]) * (k - x[seg]) / (x[seg + 1] - x[seg]);
    if (out && !(fabs(out[k] - want) < 1e-9)) sim_violation("wrong-path", "the value at %u is %g instead of %g", k, out[k], want);
    if (times && want >= 0 && !(fabs(times[k] - want) <= 1 + 1e-9)) sim_violation("wrong-path", "the value at %u is %lu instead of %g", k, (unsigned long)times[k], want);
    if (out && !(curved && c[seg] && lo == hi) && /* the control point of a curve between equal values is elsewhere */
        !(out[k] >= lo - 1e-9 && out[k] <= hi + 1e-9)) sim_violation("wrong-path", "the value at %u is %g, not between its points %g and %g", k, out[k], lo, hi);
    if (out) sim_hash_u64((u64)(long)(out[k] * 1000));
  }
  free(out);
  free(times);
  sim_leak_check(mark, "after creating a path");
  sim_heap_check();
  if (n > 2) sim_nontrivial();
}
