// The pause histogram and the bundled statistics listener against arithmetic models.
//   --opt part=<bucket|multiset|stats>
#define _GNU_SOURCE
#include <stdio.h>
#include <sys/types.h>
#include <sys/time.h>
#include <time.h>
#include "comp.h"
#include "gc-assert.h"
static uint64_t fake_usec, fake_cpu;
static int fake_gettimeofday(struct timeval *tv, void *z) { tv->tv_sec = fake_usec / 1000000; tv->tv_usec = fake_usec % 1000000; return 0; }
static int fake_clock_gettime(int c, struct timespec *ts) {
  uint64_t v = c == CLOCK_PROCESS_CPUTIME_ID ? fake_cpu : fake_usec;
  ts->tv_sec = v / 1000000; ts->tv_nsec = v % 1000000 * 1000 + 999; return 0;
}
#define gettimeofday(tv, z) fake_gettimeofday(tv, z)
#define clock_gettime(c, ts) fake_clock_gettime(c, ts)
#include "gc-basic-stats.h"
const char *mc_harness_name = "stats";

GC_DEFINE_HISTOGRAM(h_a, 25, 4)
GC_DEFINE_HISTOGRAM(h_b, 10, 0)
GC_DEFINE_HISTOGRAM(h_c, 6, 3)
GC_DEFINE_HISTOGRAM(h_d, 60, 4)
GC_DEFINE_HISTOGRAM(h_e, 1, 6)
GC_DEFINE_HISTOGRAM(h_f, 40, 8)
typedef unsigned long ul;

#define CHECK_ONE(name, bits, prec, v) do { uint64_t v_ = (v); \
    memset(&hist_##name, 0, sizeof hist_##name); \
    name##_record(&hist_##name, v_); mc_transition(); \
    size_t n_ = name##_size(), i_ = n_, hits_ = 0; \
    for (size_t k_ = 0; k_ < n_; k_++) { uint64_t c_ = name##_ref(&hist_##name, k_); if (c_) { i_ = k_; hits_ += c_; } } \
    mc_check(hits_ == 1, #name ": recording %lu filled %zu buckets", (ul)v_, hits_); \
    mc_check(name##_bucket_min_val(i_) <= v_, #name ": %lu was put in a bucket starting at %lu", (ul)v_, (ul)name##_bucket_min_val(i_)); \
    if (i_ + 1 < n_) mc_check(v_ < name##_bucket_min_val(i_ + 1), #name ": %lu was put in the bucket that ends at %lu", (ul)v_, (ul)name##_bucket_min_val(i_ + 1)); \
    mc_check(name##_count(&hist_##name) == 1, #name ": count of one value is %lu", (ul)name##_count(&hist_##name)); \
    mc_check(name##_min(&hist_##name) <= v_, #name ": minimum of {%lu} is %lu", (ul)v_, (ul)name##_min(&hist_##name)); \
    uint64_t u_ = name##_max(&hist_##name), md_ = name##_median(&hist_##name); \
    mc_check(u_ >= v_ && (i_ + 1 == n_ || u_ == name##_bucket_min_val(i_ + 1)), #name ": maximum of {%lu} is %lu", (ul)v_, (ul)u_); \
    mc_check(md_ == u_, #name ": median of {%lu} is %lu, maximum %lu", (ul)v_, (ul)md_, (ul)u_); \
  } while (0)
#define CHECK_HIST(name, bits, prec) do { static struct name hist_##name; \
    size_t n = name##_size(); \
    for (size_t i = 0; i < n; i++) { \
      uint64_t lo = name##_bucket_min_val(i); \
      if (i) mc_check(lo > name##_bucket_min_val(i - 1), #name ": bucket bounds do not increase at %zu", i); \
      if (i) { uint64_t w = lo - name##_bucket_min_val(i - 1); \
        mc_check(w <= 1 || w <= name##_bucket_min_val(i - 1) >> prec, #name ": bucket %zu is %lu wide", i - 1, (ul)w); } \
      for (int d = -2; d <= 2; d++) CHECK_ONE(name, bits, prec, lo + d); \
    } \
    for (uint64_t v = 0; v < 3000; v++) CHECK_ONE(name, bits, prec, v); \
    for (int k = 0; k < 64; k++) for (int d = -1; d <= 1; d++) CHECK_ONE(name, bits, prec, (1ull << k) + d); \
    mc_state(mc_hash(bits, prec)); \
  } while (0)
static void bucket(void) {
  switch (mc_choose(6)) {
  case 0: CHECK_HIST(h_a, 25, 4); break;
  case 1: CHECK_HIST(h_b, 10, 0); break;
  case 2: CHECK_HIST(h_c, 6, 3); break;
  case 3: CHECK_HIST(h_d, 60, 4); break;
  case 4: CHECK_HIST(h_e, 1, 6); break;
  case 5: CHECK_HIST(h_f, 40, 8); break;
  }
}

// every multiset of up to n values drawn from V
static const uint64_t V[] = { 0, 1, 15, 16, 31, 32, 1000, 65535, (1ull << 28) - 1, 1ull << 28, 1ull << 45 };
#define NV (sizeof V / sizeof *V)
static int cmp64(const void *a, const void *b) { uint64_t x = *(uint64_t *)a, y = *(uint64_t *)b; return x < y ? -1 : x > y; }
static void check_multiset(const uint64_t *x, int n) {
  // x is ascending; record in two orders: they must agree
  static struct h_a h, h2; h = make_h_a(); h2 = make_h_a();
  for (int i = 0; i < n; i++) { h_a_record(&h, x[i]); h_a_record(&h2, x[n - 1 - i]); }
  mc_transition();
  mc_check(!memcmp(&h, &h2, sizeof h), "recording order matters");
  mc_check(h_a_count(&h) == (uint64_t)n, "count is %lu, not %d", (ul)h_a_count(&h), n);
  if (!n) return;
  uint64_t top = h_a_bucket_min_val(h_a_size() - 1);
  mc_check(h_a_min(&h) <= x[0] && h_a_min(&h) >= (x[0] < top ? x[0] - (x[0] >> 4) : top), "minimum is %lu, not about %lu", (ul)h_a_min(&h), (ul)x[0]);
#define ABOUT(u, v, what) do { uint64_t u_ = (u), v_ = (v); \
    if (v_ >= top) mc_check(u_ == -1ull, "%s of %d values is %lu, not unbounded (%lu)", what, n, (ul)u_, (ul)v_); \
    else mc_check(u_ > v_ && u_ - v_ <= 1 + (v_ >> 4), "%s of %d values is %lu, not just above %lu", what, n, (ul)u_, (ul)v_); } while (0)
  ABOUT(h_a_max(&h), x[n - 1], "maximum");
  static const int P[] = { 25, 50, 75, 95, 100 };
  for (int i = 0; i < 5; i++) {
    int rank = (n * P[i] + 99) / 100;
    char what[16]; sprintf(what, "percentile %d", P[i]);
    ABOUT(h_a_percentile(&h, P[i] / 100.0), x[rank - 1], what);
  }
  ABOUT(h_a_median(&h), x[(n + 1) / 2 - 1], "median");
}
static void multi(uint64_t *x, int n, int from, int max) {
  check_multiset(x, n);
  mc_state(comp_hash(x, n * 8) + n);
  if (n == max) return;
  for (unsigned i = from; i < NV; i++) { x[n] = V[i]; multi(x, n + 1, i, max); }
}

// every sequence of collections with the given parameters
struct model { uint64_t major, minor, em, ec, cm, cc, t, cpu; size_t heap, maxheap, live, maxlive; uint64_t pause[8]; int np; };
static struct gc_basic_stats S;
static void compare(struct model *m, const char *when) {
  mc_transition();
#define EQ(f, w) mc_check((uint64_t)(S.f) == (uint64_t)(w), "%s: " #f " is %lu, not %lu", when, (ul)S.f, (ul)(w))
  EQ(major_collection_count, m->major); EQ(minor_collection_count, m->minor);
  EQ(elapsed_mutator_usec, m->em); EQ(elapsed_collector_usec, m->ec); EQ(cpu_mutator_usec, m->cm); EQ(cpu_collector_usec, m->cc);
  EQ(heap_size, m->heap); EQ(max_heap_size, m->maxheap); EQ(live_data_size, m->live); EQ(max_live_data_size, m->maxlive);
  mc_check(gc_latency_count(&S.pause_times) == (uint64_t)m->np, "%s: %lu pauses recorded, not %d", when, (ul)gc_latency_count(&S.pause_times), m->np);
  mc_state(comp_hash(m, sizeof *m));
}
static void check_print(struct model m, uint64_t dt, uint64_t dc) {
  struct gc_basic_stats save = S; uint64_t t0 = fake_usec, c0 = fake_cpu;
  fake_usec += dt; fake_cpu += dc; m.em += dt; m.cm += dc;
  gc_basic_stats_finish(&S);
  compare(&m, "after finish");
  gc_basic_stats_finish(&S);
  compare(&m, "after a second finish");
  char buf[600] = { 0 };
  FILE *f = fmemopen(buf, sizeof buf - 1, "w");
  if (!f) _Exit(3);
  gc_basic_stats_print(&S, f);
  fclose(f);
  ul a[18]; double d[3];
  int k = sscanf(buf, "Completed %lu major collections (%lu minor). %lu.%lu ms total time (%lu.%lu stopped); %lu.%lu ms CPU time (%lu.%lu stopped). %lu.%lu ms median pause time, %lu.%lu p95, %lu.%lu max. Heap size is %lf MB (max %lf MB); peak live data %lf MB.",
                 a, a + 1, a + 2, a + 3, a + 4, a + 5, a + 6, a + 7, a + 8, a + 9, a + 10, a + 11, a + 12, a + 13, a + 14, a + 15, d, d + 1, d + 2);
  mc_check(k == 19, "printed statistics have %d of 19 numbers: %s", k, buf);
#define NUM(i) (a[i] * 1000 + a[i + 1])
#define PR(what, got, want) mc_check((got) == (want), "printed %s is %lu, not %lu", what, (ul)(got), (ul)(want))
  PR("major count", a[0], m.major); PR("minor count", a[1], m.minor);
  PR("total time", NUM(2), m.em + m.ec); PR("stopped time", NUM(4), m.ec);
  PR("CPU time", NUM(6), m.cm + m.cc); PR("stopped CPU time", NUM(8), m.cc);
  if (m.np) {
    uint64_t p[8]; memcpy(p, m.pause, sizeof p); qsort(p, m.np, 8, cmp64);
#define AB(what, i, v) mc_check(NUM(i) > (v) && NUM(i) - (v) <= 1 + ((v) >> 4), "printed %s is %lu us, not just above %lu", what, NUM(i), (ul)(v))
    AB("median pause", 10, p[(m.np + 1) / 2 - 1]); AB("p95 pause", 12, p[(m.np * 95 + 99) / 100 - 1]); AB("maximum pause", 14, p[m.np - 1]);
  }
#define MB(what, i, v) mc_check(d[i] - (v) / 1e6 < 6e-4 && d[i] - (v) / 1e6 > -6e-4, "printed %s is %f MB, not %f", what, d[i], (v) / 1e6)
  MB("heap size", 0, m.heap); MB("maximum heap size", 1, m.maxheap); MB("peak live size", 2, m.maxlive);
  S = save; fake_usec = t0; fake_cpu = c0;
}
static const struct gc_event_listener L0 = { 0 };
static void seqs(struct model *m, int depth, int top) {
  const struct gc_event_listener L = GC_BASIC_STATS;
  if (depth == 0 || !top) check_print(*m, 1234567, 1000001);
  if (!depth) return;
  static const uint64_t DT[] = { 0, 999, 700001 }, PT[] = { 0, 17, 1300000 };
  static const size_t LV[] = { 1000, 5000000 }, HV[] = { 0, 4000000, 9000000 };
  for (int c = 0; c < 162; c++) {
    if (top && c % 162 != top - 1) continue;
    int x = c; int kind = 1 + x % 3; x /= 3; uint64_t dt = DT[x % 3]; x /= 3; uint64_t pt = PT[x % 3]; x /= 3; size_t lv = LV[x % 2]; x /= 2; size_t hv = HV[x % 3];
    struct gc_basic_stats save = S; uint64_t t0 = fake_usec, c0 = fake_cpu; struct model n = *m;
    uint64_t dc = dt / 2, pc = pt * 3;
    fake_usec += dt; fake_cpu += dc; n.em += dt; n.cm += dc;
    L.requesting_stop(&S); compare(&n, "after requesting_stop");
    fake_usec += pt / 2;
    L.waiting_for_stop(&S); L.mutators_stopped(&S);
    L.prepare_gc(&S, kind); if (kind == GC_COLLECTION_MINOR) n.minor++; else n.major++;
    compare(&n, "after prepare_gc");
    L.roots_traced(&S); L.heap_traced(&S); L.ephemerons_traced(&S); L.finalizers_traced(&S);
    L.live_data_size(&S, lv); n.live = lv; if (lv > n.maxlive) n.maxlive = lv;
    if (hv) { L.heap_resized(&S, hv); n.heap = hv; if (hv > n.maxheap) n.maxheap = hv; }
    compare(&n, "after live_data_size and heap_resized");
    fake_usec = t0 + dt + pt; fake_cpu += pc; n.ec += pt; n.cc += pc;
    n.pause[n.np++] = pt;
    L.restarting_mutators(&S); compare(&n, "after restarting_mutators");
    seqs(&n, depth - 1, 0);
    S = save; fake_usec = t0; fake_cpu = c0;
  }
}
static void stats(void) {
  fake_usec = 7999999; fake_cpu = 1999998;
  const struct gc_event_listener L = GC_BASIC_STATS;
  memset(&S, 0x5a, sizeof S);
  L.init(&S, 5000000);
  struct model m = { .heap = 5000000, .maxheap = 5000000 };
  compare(&m, "after init");
  void *md = L.mutator_added(&S);
  L.mutator_cause_gc(md); L.mutator_stopping(md); L.mutator_stopped(md); L.mutator_restarted(md); L.mutator_removed(md);
  compare(&m, "after mutator events");
  seqs(&m, mc_opt("depth", 3), 1 + mc_choose(162));
}

void mc_harness(void) {
  const char *p = mc_optstr("part", "bucket");
  if (!strcmp(p, "bucket")) bucket();
  else if (!strcmp(p, "multiset")) { uint64_t x[8]; multi(x, 0, 0, mc_opt("n", 5)); }
  else stats();
  mc_outcome(1);
}
