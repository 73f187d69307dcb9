/* Explores seeds in parallel worker processes, checks determinism, minimises and replays violations. */
#define _GNU_SOURCE
#include "internal.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <time.h>
#include <unistd.h>

static double wall(void) {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return t.tv_sec + t.tv_nsec / 1e9;
}
static void* shared(size_t n) {
  void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return p;
}
typedef struct {
  u64 evaluations, ok, violations, inconclusive, crashes_in_harness, nontrivial, recheck, recheck_bad, overflow;
  u64 accesses, sync_ops, switches, simtime, allocs, alloc_bytes, threads, choices;
  u64 fired[F_N], fired_runs[F_N], probes[P_N];
  u64 per_scen[64];
  u64 bad_index;
} stats_t;
typedef struct {
  volatile u64 stop_at; /* smallest index with a violation */
  volatile u32 error;
  u64 err_index;
} control_t;
static const sim_scenario_t* scen[256];
static int nscen;
static const sim_scenario_t* find_scen(const char* n) {
  for (const sim_scenario_t* s = sim_scenarios; s->name; s++)
    if (!strcmp(s->name, n)) return s;
  fprintf(stderr, "unknown scenario %s\n", n);
  exit(2);
}
static int run_child(const sim_scenario_t* s, u64 seed, u64 index, sim_result_t* r, const sim_logs_t* l, int trace) {
  r->status = ST_RUNNING;
  fflush(0);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (!p) core_run(s, seed, index, r, l, trace);
  int st;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (r->status == ST_RUNNING) { /* died without a verdict */
    r->status = ST_INCONCLUSIVE;
    snprintf(r->msg, sizeof r->msg, "child ended with wait status %d", st);
    return 1;
  }
  return 0;
}
static volatile int stop_flag;
static void on_term(int s) { (void)s; stop_flag = 1; }

static void json_str(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; s++) {
    if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
    else if (*s == '\n') fputs("\\n", f);
    else if ((u8)*s < 32) fputc(' ', f);
    else fputc(*s, f);
  }
  fputc('"', f);
}
static int cmp64(const void* a, const void* b) {
  u64 x = *(u64*)a, y = *(u64*)b;
  return x < y ? -1 : x > y;
}
static u64 uniq(u64* a, u64 n) {
  if (!n) return 0;
  qsort(a, n, 8, cmp64);
  u64 k = 1;
  for (u64 i = 1; i < n; i++)
    if (a[i] != a[i - 1]) k++;
  return k;
}

/* ---- minimising ---- */
static sim_result_t* mres;
static sim_logs_t best;
static char best_kind[48];
static const sim_scenario_t* mscen;
static u64 mseed, mindex, mtries;
static double mdeadline;
static void logs_alloc(sim_logs_t* l) {
  for (int i = 0; i < S_N; i++) l->log[i] = malloc(sizeof(u32) * LOG_MAX_SCHED);
}
static void logs_copy(sim_logs_t* d, const sim_logs_t* s) {
  for (int i = 0; i < S_N; i++) {
    d->len[i] = s->len[i];
    memcpy(d->log[i], s->log[i], 4 * (size_t)s->len[i]);
  }
}
static void logs_from_result(sim_logs_t* l, sim_result_t* r) {
  u32* src[S_N];
  src[S_OPS] = r->log_ops;
  src[S_FAULT] = r->log_fault;
  src[S_SCHED] = r->log_sched;
  for (int i = 0; i < S_N; i++) {
    l->len[i] = r->loglen[i];
    memcpy(l->log[i], src[i], 4 * (size_t)l->len[i]);
    while (l->len[i] && !l->log[i][l->len[i] - 1]) l->len[i]--;
  }
}
static u64 weight(const sim_logs_t* l) {
  u64 w = 0;
  for (int i = 0; i < S_N; i++) {
    w += l->len[i] * 4ull;
    for (u32 k = 0; k < l->len[i]; k++)
      if (l->log[i][k]) w += 2 + (l->log[i][k] > 3);
  }
  return w;
}
static int try_logs(sim_logs_t* t) {
  if (wall() > mdeadline || mtries > 6000) return 0;
  mtries++;
  run_child(mscen, mseed, mindex, mres, t, 0);
  if (mres->status != ST_VIOLATION || strcmp(mres->kind, best_kind)) return 0;
  sim_logs_t n;
  logs_alloc(&n);
  logs_from_result(&n, mres);
  u64 a = weight(&n), b = weight(&best);
  int better = a < b;
  if (!better && a == b) {
    /* same size: accept smaller values */
    u64 sa = 0, sb = 0;
    for (int i = 0; i < S_N; i++) {
      for (u32 k = 0; k < n.len[i]; k++) sa += n.log[i][k];
      for (u32 k = 0; k < best.len[i]; k++) sb += best.log[i][k];
    }
    better = sa < sb;
  }
  if (better) logs_copy(&best, &n);
  for (int i = 0; i < S_N; i++) free(n.log[i]);
  return better;
}
static int min_late(void) { return wall() > mdeadline || mtries > 6000; }
static void min_tails(int s, sim_logs_t* t) {
  logs_copy(t, &best);
  t->len[s] = 0;
  try_logs(t);
  for (u32 cut = best.len[s] / 2; cut; cut /= 2)
    for (;;) {
      if (best.len[s] <= cut) break;
      logs_copy(t, &best);
      t->len[s] -= cut;
      if (!try_logs(t)) break;
    }
}
/* chunks are not smaller than least */
static void min_delete(int s, u32 least, sim_logs_t* t) {
  for (u32 c = best.len[s] / 2; c && c >= least; c = c > 8 ? c / 2 : c - 1)
    for (u32 p = 0; p + c <= best.len[s];) {
      logs_copy(t, &best);
      memmove(t->log[s] + p, t->log[s] + p + c, 4 * (size_t)(t->len[s] - p - c));
      t->len[s] -= c;
      if (!try_logs(t)) p += c > 1 ? c / 2 : 1;
      if (min_late()) return;
    }
}
static void min_zero(int s, u32 least, sim_logs_t* t) {
  for (u32 c = best.len[s]; c && c >= least; c /= 2)
    for (u32 p = 0; p < best.len[s]; p += c) {
      int nz = 0;
      for (u32 k = p; k < p + c && k < best.len[s]; k++) nz |= best.log[s][k] != 0;
      if (!nz) continue;
      logs_copy(t, &best);
      for (u32 k = p; k < p + c && k < t->len[s]; k++) t->log[s][k] = 0;
      try_logs(t);
      if (min_late()) return;
    }
}
static void min_lower(int s, sim_logs_t* t) {
  for (u32 p = 0; p < best.len[s]; p++)
    for (int g = 0; g < 12 && p < best.len[s] && best.log[s][p] > 1; g++) {
      logs_copy(t, &best);
      t->log[s][p] = g & 1 ? t->log[s][p] - 1 : t->log[s][p] / 2;
      if (!try_logs(t) && (g & 1)) break;
      if (min_late()) return;
    }
}
static void minimise(void) {
  sim_logs_t t;
  logs_alloc(&t);
  int order[S_N] = { S_SCHED, S_FAULT, S_OPS };
  /* large logs: coarse steps over all logs first. zero is the uneventful choice and does not shift what follows */
  for (u32 grain = 8; grain <= 512 && !min_late(); grain *= 8) {
    int large = 0;
    for (int oi = 0; oi < S_N && !min_late(); oi++) {
      int s = order[oi];
      if (best.len[s] <= 200) continue;
      large = 1;
      min_tails(s, &t);
      min_zero(s, 1 + best.len[s] / grain, &t);
      if (grain < 512) min_delete(s, 1 + best.len[s] / grain, &t);
    }
    if (!large) break;
  }
  for (int round = 0; round < 4 && !min_late(); round++) {
    u64 before = weight(&best);
    for (int oi = 0; oi < S_N && !min_late(); oi++) {
      int s = order[oi];
      min_tails(s, &t);
      if (best.len[s] > 1000) min_zero(s, 1, &t);
      min_delete(s, 1, &t);
      min_zero(s, 1, &t);
      min_lower(s, &t);
    }
    if (weight(&best) == before) break;
  }
  for (int i = 0; i < S_N; i++) free(t.log[i]);
}
static void write_replay(const char* path, const char* check, const char* variant, const sim_result_t* r, int by_seed) {
  FILE* f = fopen(path, "w");
  if (!f) { perror(path); exit(2); }
  fprintf(f, "sim-replay 1\ncheck %s\nscenario %s\nvariant %s\nseed %llu\nindex %llu\nkind %s\nhash %016llx\nbyseed %d\n", check, mscen->name, variant, (unsigned long long)mseed, (unsigned long long)mindex, r->kind,
    (unsigned long long)r->hash, by_seed);
  static const char* nm[S_N] = { "ops", "sched", "fault" };
  for (int i = 0; i < S_N; i++) {
    fprintf(f, "%s %u", nm[i], by_seed ? 0 : best.len[i]);
    if (!by_seed)
      for (u32 k = 0; k < best.len[i]; k++) fprintf(f, " %u", best.log[i][k]);
    fprintf(f, "\n");
  }
  fprintf(f, "message %s\n", r->msg);
  fprintf(f, "pcs");
  for (u32 i = 0; i < r->npcs; i++) fprintf(f, " %llx", (unsigned long long)r->pcs[i]);
  fprintf(f, "\npcs2");
  for (u32 i = 0; i < r->npcs2; i++) fprintf(f, " %llx", (unsigned long long)r->pcs2[i]);
  fprintf(f, "\ndesc ");
  for (const char* p = r->desc; *p; p++) fputc(*p == '\n' ? ' ' : *p, f);
  fprintf(f, "\ntrace\n%.*s", (int)r->trace_len, r->trace);
  fclose(f);
}
static int load_replay(const char* path, sim_logs_t* l, char* scenario, char* kind, u64* seed, u64* index, u64* hash, int* by_seed) {
  FILE* f = fopen(path, "r");
  if (!f) { perror(path); return 0; }
  char w[100];
  logs_alloc(l);
  while (fscanf(f, "%99s", w) == 1) {
    int s = !strcmp(w, "ops") ? S_OPS : !strcmp(w, "sched") ? S_SCHED : !strcmp(w, "fault") ? S_FAULT : -1;
    if (s >= 0) {
      if (fscanf(f, "%u", &l->len[s]) != 1) return 0;
      for (u32 k = 0; k < l->len[s]; k++)
        if (fscanf(f, "%u", &l->log[s][k]) != 1) return 0;
    } else if (!strcmp(w, "scenario")) { if (fscanf(f, "%99s", scenario) != 1) return 0; }
    else if (!strcmp(w, "kind")) { if (fscanf(f, "%47s", kind) != 1) return 0; }
    else if (!strcmp(w, "seed")) { unsigned long long x; if (fscanf(f, "%llu", &x) != 1) return 0; *seed = x; }
    else if (!strcmp(w, "index")) { unsigned long long x; if (fscanf(f, "%llu", &x) != 1) return 0; *index = x; }
    else if (!strcmp(w, "hash")) { unsigned long long x; if (fscanf(f, "%llx", &x) != 1) return 0; *hash = x; }
    else if (!strcmp(w, "byseed")) { if (fscanf(f, "%d", by_seed) != 1) return 0; }
    else if (!strcmp(w, "message")) break;
  }
  fclose(f);
  return 1;
}
int main(int argc, char** argv) {
  const char *check = "?", *scens = 0, *out = 0, *replay_out = 0, *replay = 0, *variant = sim_is_tsan() ? "tsan" : "release";
  u64 seed = 1, from = 0, count = 1000;
  double budget = 30, minbudget = 25;
  int workers = 8, trace = 0, one = 0, dump = 0;
  for (int i = 1; i < argc; i++) {
    const char* a = argv[i];
#define ARG(n) (!strcmp(a, n) && i + 1 < argc)
    if (ARG("--check")) check = argv[++i];
    else if (ARG("--scenarios")) scens = argv[++i];
    else if (ARG("--seed")) seed = strtoull(argv[++i], 0, 10);
    else if (ARG("--from")) from = strtoull(argv[++i], 0, 10);
    else if (ARG("--count")) count = strtoull(argv[++i], 0, 10);
    else if (ARG("--budget")) budget = atof(argv[++i]);
    else if (ARG("--min-budget")) minbudget = atof(argv[++i]);
    else if (ARG("--workers")) workers = atoi(argv[++i]);
    else if (ARG("--out")) out = argv[++i];
    else if (ARG("--replay-out")) replay_out = argv[++i];
    else if (ARG("--replay")) replay = argv[++i];
    else if (!strcmp(a, "--trace")) trace = 1;
    else if (!strcmp(a, "--one")) one = 1;
    else if (!strcmp(a, "--dump")) dump = 1;
    else { fprintf(stderr, "unknown argument %s\n", a); return 2; }
  }
  core_map_arenas();
  signal(SIGTERM, on_term);
  if (replay) {
    sim_logs_t l = { 0 };
    char sn[100] = "", kind[48] = "";
    u64 hash = 0;
    int by_seed = 0;
    u64 index = 0;
    if (!load_replay(replay, &l, sn, kind, &seed, &index, &hash, &by_seed)) { fprintf(stderr, "cannot read %s\n", replay); return 2; }
    sim_result_t* r = shared(sizeof *r);
    run_child(find_scen(sn), seed, index, r, by_seed ? 0 : &l, 1);
    if (trace) fwrite(r->trace, 1, r->trace_len, stdout);
    if (r->status == ST_VIOLATION) {
      printf("replayed: %s: %s\n", r->kind, r->msg);
      return strcmp(r->kind, kind) ? 3 : 1;
    }
    printf("replayed: no violation (status %d)\n", r->status);
    return 0;
  }
  if (!scens) { fprintf(stderr, "need --scenarios\n"); return 2; }
  char* sc = strdup(scens);
  for (char* t = strtok(sc, ","); t; t = strtok(0, ",")) scen[nscen++] = find_scen(t);
  if (one) { /* one run, for looking at it */
    sim_result_t* r = shared(sizeof *r);
    run_child(scen[from % nscen], seed, from, r, 0, 1);
    if (trace) fwrite(r->trace, 1, r->trace_len, stdout);
    printf("status %d kind %s msg %s\nhash %llx accesses %llu sync %llu switches %llu simtime %.3f allocs %llu threads %llu log %u %u %u\ndesc %s\n", r->status, r->kind, r->msg, (unsigned long long)r->hash,
      (unsigned long long)r->accesses, (unsigned long long)r->sync_ops, (unsigned long long)r->switches, r->simtime / 1e9, (unsigned long long)r->allocs, (unsigned long long)r->threads, r->loglen[0], r->loglen[1],
      r->loglen[2], r->desc);
    for (u32 i = 0; i < r->npcs; i++) printf("  pc %llx\n", (unsigned long long)r->pcs[i]);
    for (u32 i = 0; i < r->npcs2; i++) printf("  pc2 %llx\n", (unsigned long long)r->pcs2[i]);
    return r->status == ST_VIOLATION;
  }
  double t0 = wall();
  control_t* ctl = shared(sizeof *ctl);
  ctl->stop_at = ~0ull;
  stats_t* st = shared(sizeof(stats_t) * workers);
  sim_result_t** res = malloc(sizeof *res * workers);
  for (int w = 0; w < workers; w++) res[w] = shared(sizeof(sim_result_t));
  u64* hashes = shared(8 * (count + 1));
  u64* shashes = shared(8 * (count + 1));
  u64* nt = shared(8 * (count + 1));
  char(*samples)[DESC_MAX + 300] = shared((DESC_MAX + 300) * 8);
  pid_t* pids = malloc(sizeof(pid_t) * workers);
  for (int w = 0; w < workers; w++) {
    pids[w] = fork();
    if (pids[w]) continue;
    stats_t* s = &st[w];
    sim_result_t* r = res[w];
    int harness_fail = 0;
    for (u64 k = w; k < count; k += workers) {
      u64 index = from + k;
      if (index > ctl->stop_at) break;
      if (wall() - t0 > budget) break;
      const sim_scenario_t* sn = scen[index % nscen];
      int bad = run_child(sn, seed, index, r, 0, 0);
      s->evaluations++;
      s->per_scen[index % nscen]++;
      if (dump) fprintf(stderr, "%llu %s %d %s %llx %s\n", (unsigned long long)index, sn->name, r->status, r->kind, (unsigned long long)r->hash, r->msg);
      if (bad) {
        s->crashes_in_harness++;
        s->inconclusive++;
        if (++harness_fail > 3) { ctl->error = 1; ctl->err_index = index; break; }
        continue;
      }
      if (r->status == ST_VIOLATION) {
        s->violations++;
        u64 o;
        while ((o = ctl->stop_at) > index && !__sync_bool_compare_and_swap(&ctl->stop_at, o, index)) {}
        break;
      }
      if (r->status == ST_INCONCLUSIVE) { s->inconclusive++; continue; }
      s->ok++;
      s->accesses += r->accesses;
      s->sync_ops += r->sync_ops;
      s->switches += r->switches;
      s->simtime += r->simtime;
      s->allocs += r->allocs;
      s->alloc_bytes += r->alloc_bytes;
      s->threads += r->threads;
      s->choices += r->choices;
      s->overflow += r->log_overflow;
      for (int i = 0; i < F_N; i++) { s->fired[i] += r->fired[i]; s->fired_runs[i] += r->fired[i] != 0; }
      for (int i = 0; i < P_N; i++) s->probes[i] += r->probes[i] != 0;
      hashes[k] = r->hash | 1;
      shashes[k] = r->sched_hash | 1;
      if (r->nontrivial) { s->nontrivial++; nt[k] = (r->hash ^ 0x55) | 1; }
      if (k < 6) snprintf(samples[k], DESC_MAX + 300, "scenario %s seed %llu index %llu: %s; %llu switches, %llu sync ops, %.3f s simulated", sn->name, (unsigned long long)seed, (unsigned long long)index, r->desc,
        (unsigned long long)r->switches, (unsigned long long)r->sync_ops, r->simtime / 1e9);
      if (k % 40 == (u64)w) { /* determinism: the same seed again, and a replay of its log */
        u64 h = r->hash;
        run_child(sn, seed, index, r, 0, 0);
        s->recheck++;
        if (r->hash != h || r->status != ST_OK) { s->recheck_bad++; s->bad_index = index; }
        else if (!r->log_overflow && k % 80 == (u64)w) {
          sim_logs_t l;
          logs_alloc(&l);
          logs_from_result(&l, r);
          run_child(sn, seed ^ 0x1234567, index + 99, r, &l, 1);
          s->recheck++;
          if (r->hash != h || r->status != ST_OK) { s->recheck_bad++; s->bad_index = index; }
          for (int i = 0; i < S_N; i++) free(l.log[i]);
        }
      }
    }
    _exit(0);
  }
  for (int w = 0; w < workers; w++) waitpid(pids[w], 0, 0);
  stats_t T = { 0 };
  for (int w = 0; w < workers; w++) {
    u64 *a = (u64*)&T, *b = (u64*)&st[w];
    u64 bi = st[w].bad_index;
    for (size_t i = 0; i < sizeof(stats_t) / 8; i++) a[i] += b[i];
    if (bi) T.bad_index = bi;
  }
  double t1 = wall();
  u64 n = 0, ns = 0, nn = 0;
  for (u64 k = 0; k < count; k++) {
    if (hashes[k]) { hashes[n++] = hashes[k]; }
    if (shashes[k]) { shashes[ns++] = shashes[k]; }
    if (nt[k]) nt[nn++] = nt[k];
  }
  u64 dh = uniq(hashes, n), ds = uniq(shashes, ns), dn = uniq(nt, nn);
  int rc = 0;
  char vmsg[1700] = "", vkind[48] = "";
  u64 min_from = 0, min_to = 0, vindex = 0;
  double tmin = 0;
  if (T.recheck_bad) {
    fprintf(stderr, "simulator error: run %llu is not deterministic\n", (unsigned long long)T.bad_index);
    rc = 2;
  }
  if (ctl->error) {
    fprintf(stderr, "simulator error: run %llu ended without a verdict\n", (unsigned long long)ctl->err_index);
    rc = 2;
  }
  sim_result_t* r = shared(sizeof *r);
  if (ctl->stop_at != ~0ull) {
    vindex = mindex = ctl->stop_at;
    mscen = scen[mindex % nscen];
    mseed = seed;
    mres = r;
    logs_alloc(&best);
    run_child(mscen, mseed, mindex, r, 0, 0);
    u64 h = r->hash;
    snprintf(best_kind, sizeof best_kind, "%s", r->kind);
    logs_from_result(&best, r);
    int overflow = r->log_overflow;
    int same = r->status == ST_VIOLATION;
    run_child(mscen, mseed, mindex, r, 0, 0);
    if (!same || r->status != ST_VIOLATION || r->hash != h || !strcmp(best_kind, "crash-in-checker")) {
      fprintf(stderr, "simulator error: violation of run %llu did not repeat (%s: %s)\n", (unsigned long long)mindex, r->kind, r->msg);
      rc = 2;
    } else {
      rc = 1;
      int by_seed = overflow;
      if (!by_seed) {
        run_child(mscen, mseed, mindex, r, &best, 0);
        if (r->status != ST_VIOLATION || strcmp(r->kind, best_kind)) by_seed = 1;
      }
      min_from = weight(&best);
      double tm = wall();
      mdeadline = tm + minbudget;
      if (!by_seed) minimise();
      tmin = wall() - tm;
      min_to = weight(&best);
      run_child(mscen, mseed, mindex, r, by_seed ? 0 : &best, 1);
      if (r->status != ST_VIOLATION) {
        fprintf(stderr, "simulator error: minimised run does not repeat\n");
        rc = 2;
      }
      snprintf(vmsg, sizeof vmsg, "%s", r->msg);
      snprintf(vkind, sizeof vkind, "%s", r->kind);
      if (replay_out) write_replay(replay_out, check, variant, r, by_seed);
    }
  }
  FILE* f = out ? fopen(out, "w") : stdout;
  if (!f) { perror(out); return 2; }
#define U(x) ((unsigned long long)(x))
  fprintf(f, "{\"variant\":\"%s\",\"seed\":%llu,\"evaluations\":%llu,\"ok\":%llu,\"inconclusive\":%llu,\"distinct_runs\":%llu,\"distinct_schedules\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%llu,", variant, U(seed), U(T.evaluations),
    U(T.ok), U(T.inconclusive), U(dh), U(ds), U(T.nontrivial), U(dn));
  fprintf(f, "\"recheck\":%llu,\"recheck_bad\":%llu,\"log_overflow\":%llu,\"accesses\":%llu,\"sync_ops\":%llu,\"switches\":%llu,\"simulated_s\":%.6f,\"allocations\":%llu,\"threads\":%llu,\"choices\":%llu,\"wall_s\":%.3f,", U(T.recheck),
    U(T.recheck_bad), U(T.overflow), U(T.accesses), U(T.sync_ops), U(T.switches), T.simtime / 1e9, U(T.allocs), U(T.threads), U(T.choices), t1 - t0);
  fprintf(f, "\"faults\":{");
  int c = 0;
  for (int i = 0; i < F_N; i++)
    if (T.fired[i]) fprintf(f, "%s\"%s\":[%llu,%llu]", c++ ? "," : "", sim_fault_names[i], U(T.fired[i]), U(T.fired_runs[i]));
  fprintf(f, "},\"probes\":{");
  c = 0;
  for (int i = 0; i < P_N; i++)
    if (T.probes[i]) fprintf(f, "%s\"%s\":%llu", c++ ? "," : "", sim_probe_names[i], U(T.probes[i]));
  fprintf(f, "},\"scenarios\":{");
  c = 0;
  for (int i = 0; i < nscen; i++) {
    int dup = 0;
    for (int j = 0; j < i; j++) dup |= scen[j] == scen[i];
    if (dup) continue;
    u64 x = 0;
    for (int j = i; j < nscen; j++)
      if (scen[j] == scen[i]) x += T.per_scen[j & 63];
    fprintf(f, "%s\"%s\":%llu", c++ ? "," : "", scen[i]->name, U(x));
  }
  fprintf(f, "},\"samples\":[");
  c = 0;
  for (int i = 0; i < 6; i++)
    if (samples[i][0]) {
      if (c++) fputc(',', f);
      json_str(f, samples[i]);
    }
  fprintf(f, "]");
  if (rc == 1) {
    fprintf(f, ",\"violation\":{\"scenario\":\"%s\",\"index\":%llu,\"kind\":", mscen->name, U(vindex));
    json_str(f, vkind);
    fprintf(f, ",\"message\":");
    json_str(f, vmsg);
    fprintf(f, ",\"pcs\":[");
    for (u32 i = 0; i < r->npcs; i++) fprintf(f, "%s\"%llx\"", i ? "," : "", U(r->pcs[i]));
    fprintf(f, "],\"pcs2\":[");
    for (u32 i = 0; i < r->npcs2; i++) fprintf(f, "%s\"%llx\"", i ? "," : "", U(r->pcs2[i]));
    fprintf(f, "],\"min_from\":%llu,\"min_to\":%llu,\"min_tries\":%llu,\"min_s\":%.2f}", U(min_from), U(min_to), U(mtries), tmin);
  }
  fprintf(f, "}\n");
  if (out) fclose(f);
  return rc;
}
