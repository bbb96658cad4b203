// The heap sizers: every sequence of collections and background ticks, with live
// sizes, pauses, allocation counts and times from small sets of extreme values.
#define GC_IMPL 1
#include <pthread.h>
#include "comp.h"
#include "gc-assert.h"
#include "heap-sizer.h"
const char *mc_harness_name = "sizer";
typedef unsigned long ul;
static uint64_t now = 1000, counter = 1;
uint64_t gc_platform_monotonic_nanoseconds(void) { return now; }
struct gc_heap { uint64_t size; int calls; };
static uint64_t get_counter(struct gc_heap *h) { return counter; }
static void set_size(struct gc_heap *h, size_t size) { h->size = size; h->calls++; }
static const uint64_t lives[] = { 0, 1, 1 << 20, 100 << 20, 1ull << 40 }, pauses[] = { 0, 1000, 1000000000 };
static const uint64_t incs[] = { 0, 1, 1000000, 1000000000000 }, dts[] = { 1, 1000000000, 3600000000000 };
static const double expans[] = { 0, 1e-9, 0.01, 1, 50 };
#define N(a) (int)(sizeof (a) / sizeof *(a))
#define MINFREE (4ull << 20)
static void bounds(struct gc_heap *h, uint64_t live, double e) {
  uint64_t lo = live * 1.1, hi = live * 5.0;
  if (lo < live + MINFREE) lo = live + MINFREE;
  if (hi < lo) hi = lo;
  mc_check(h->size >= lo * 0.999999 && h->size <= hi * 1.000001, "adaptive: heap size %lu for %lu live bytes, expansiveness %g, outside [%lu, %lu]", (ul)h->size, (ul)live, e, (ul)lo, (ul)hi);
  if (e == 0) mc_check(h->size <= lo * 1.000001, "adaptive: expansiveness 0 but heap size %lu for %lu live bytes (least is %lu)", (ul)h->size, (ul)live, (ul)lo);
}
#define MAXD 8
static void adaptive(int depth) {
  static struct gc_heap h[N(expans)]; static struct gc_heap_sizer s[N(expans)];
  struct gc_background_thread th; memset(&th, 0, sizeof th);
  pthread_mutex_init(&th.lock, NULL);
  pthread_mutex_lock(&th.lock);     // as the background thread would, sometimes
  pthread_mutex_unlock(&th.lock);
  struct gc_common_options o = { .heap_size_policy = GC_HEAP_SIZE_ADAPTIVE };
  for (int i = 0; i < N(expans); i++) {
    o.heap_expansiveness = expans[i]; h[i].size = 1 << 20; h[i].calls = 0;
    s[i] = gc_make_heap_sizer(&h[i], &o, get_counter, set_size, &th);
  }
#if GC_PARALLEL
  mc_check(th.count == N(expans), "adaptive: %zu background tasks for %d sizers", th.count, N(expans));
#endif
  uint64_t live = 0; int known = 0;
  for (int d = 0; d < depth; d++) {
    int tick = mc_choose(2);
    if (!tick) { live = lives[mc_choose(N(lives))]; known = 1; }
    uint64_t pause = 0; int fail = 0;
    if (!tick) pause = pauses[mc_choose(N(pauses))];
    uint64_t save = counter;
    int k = mc_choose(N(incs) + 1);
    if (!k) fail = 1; else counter += incs[k - 1];
    if (fail) { counter = 0; } else now += dts[mc_choose(N(dts))];
    if (tick) mc_log("tick%s ", fail ? "-fail" : ""); else mc_log("gc live %lu pause %lu%s ", (ul)live, (ul)pause, fail ? " -fail" : "");
    for (int i = 0; i < N(expans); i++) {
      int calls = h[i].calls; uint64_t before = h[i].size;
      if (!tick) {
        gc_heap_sizer_on_gc(s[i], h[i].size, live, pause, set_size);
        mc_check(h[i].calls > calls, "adaptive: a collection did not set the heap size");
      } else {
#if GC_PARALLEL
        th.tasks[i].run(th.tasks[i].data);
#else
        gc_adaptive_heap_sizer_background_task(s[i].adaptive);
#endif
        if (fail) mc_check(h[i].calls == calls && h[i].size == before, "adaptive: heap resized though the allocation counter was not available");
      }
      if (known && h[i].calls > calls) bounds(&h[i], live, expans[i]);
      if (known && i && h[i].calls && h[i - 1].calls) mc_check(h[i].size >= h[i - 1].size, "adaptive: more expansiveness (%g), smaller heap: %lu against %lu", expans[i], (ul)h[i].size, (ul)h[i - 1].size);
      mc_transition();
      mc_state(mc_hash(mc_hash(h[i].size, i), mc_hash(live, s[i].adaptive->smoothed_allocation_rate * 1e3)));
    }
    if (fail) counter = save;
  }
  mc_outcome(h[N(expans) - 2].size);
}
static void growable(int depth) {
  static const double mults[] = { 1, 1.75, 2, 5, 1000 };
  static const uint64_t sizes[] = { 1, 1 << 20, 1 << 30, 1ull << 45 };
  struct gc_heap h = { sizes[mc_choose(N(sizes))] };
  double m = mults[mc_choose(N(mults))];
  struct gc_common_options o = { .heap_size_policy = GC_HEAP_SIZE_GROWABLE, .heap_size_multiplier = m };
  struct gc_heap_sizer s = gc_make_heap_sizer(&h, &o, get_counter, set_size, NULL);
  for (int d = 0; d < depth; d++) {
    uint64_t live = lives[mc_choose(N(lives))], before = h.size;
    gc_heap_sizer_on_gc(s, h.size, live, 1, set_size);
    mc_transition(); mc_state(mc_hash(h.size, live));
    double want = live * m; if (want < before) want = before;
    mc_check(h.size >= before, "growable: heap shrank from %lu to %lu", (ul)before, (ul)h.size);
    mc_check(h.size + 2 >= want * 0.999999 && h.size <= want * 1.000001 + 2, "growable: heap of size %lu with %lu live bytes and multiplier %g became %lu", (ul)before, (ul)live, m, (ul)h.size);
  }
  mc_outcome(h.size);
}
static void fixed(int depth) {
  struct gc_heap h = { 1 << 20 };
  struct gc_common_options o = { .heap_size_policy = GC_HEAP_SIZE_FIXED, .heap_size_multiplier = 3, .heap_expansiveness = 3 };
  struct gc_heap_sizer s = gc_make_heap_sizer(&h, &o, get_counter, set_size, NULL);
  for (int d = 0; d < depth; d++) {
    gc_heap_sizer_on_gc(s, h.size, lives[mc_choose(N(lives))], pauses[mc_choose(N(pauses))], set_size);
    mc_transition();
    mc_check(!h.calls && h.size == 1 << 20, "fixed: heap resized to %lu", (ul)h.size);
  }
  mc_state(1); mc_outcome(h.size);
}
void mc_harness(void) {
  int depth = mc_opt("depth", 2);
  switch (mc_choose(3)) { case 0: fixed(depth); break; case 1: growable(depth + 1); break; case 2: adaptive(depth); break; }
}
