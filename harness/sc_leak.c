// A short program is run again and again, everything it made being dropped each
// time; what it made must become available again, however long this goes on.
//   --opt alpha=.. --opt depth=N --opt rounds=N
#include "ops.h"
const char *mc_harness_name = "leak-" HH_CONFIG;
static char prog[16];
static void drop(void) {
  for (int s = 0; s < HH_SLOTS; s++) { hh_root(0, s, -1); hh_heap_root(s, 0, -1); }
  for (int i = 0; i < 3; i++) { hh_collect(0, GC_COLLECTION_MAJOR); while (hh_pop(0, 5)) ; hh_root(0, 5, -1); }
  hh_check_fired();
  hh_collect(0, GC_COLLECTION_MAJOR);
  hh_verify();
}
// Live objects scattered all over the heap, then other sizes wanted again and again.
static void scatter(size_t size, size_t from, size_t to, int field0, int nfields) {
  // nfields objects of the given size live, one every (to - from) / nfields bytes
  size_t every = (to - from) / nfields;
  for (int i = 0; i < nfields; i++) {
    hh_node(0, 1, size, 1);
    hh_store(0, 0, field0 + i, 1); hh_root(0, 1, -1);
    if (every > size) hh_garbage(0, size, every - size, GC_ALLOCATION_TAGGED, 1);
  }
}
static void frag(void) {
  static const size_t as[] = { 16, 200, 2000, 8000 }, bs[] = { 24, 1000, 8000, 9000, 100000, 600000 };
  int nb = mc_opt("nb", 6);
  int n = mc_opt("n", 200), steps = mc_opt("depth", 2);
  opt_nf = n;
  hh_node(0, n, 8 + 8 * n, 0);
  for (int d = 0; d < steps; d++) {
    size_t a = as[mc_choose(4)], b = bs[mc_choose(nb)]; int drop_some = mc_choose(2);
    mc_log("scatter %zu want %zu%s; ", a, b, drop_some ? " drop" : "");
    // live: a quarter of the heap at most
    int frac = mc_opt("frac", 4), k = n; if (k * a > heap_size / frac) k = heap_size / frac / a;
    for (int i = 0; i < n; i++) hh_store(0, 0, i, -1);
    scatter(a, 0, heap_size - heap_size / 8, 0, k);
    hh_verify();
    if (drop_some) for (int i = 0; i < k; i++) if (i % 3) hh_store(0, 0, i, -1);
    hh_garbage(0, b, heap_size * 3, GC_ALLOCATION_TAGGED, 1);
    hh_verify(); hh_seen();
  }
  mc_outcome(hh_state_hash());
}
void mc_harness(void) {
  const char *alpha = mc_optstr("alpha", "ablkmnstu=ENRfvJqhH2o");
  int depth = mc_opt("depth", 2), rounds = mc_opt("rounds", 6);
  ops_opts();
  struct hh_config c = { .heap = heap_size, .par = mc_opt("par", 1), .policy = mc_opt("policy", 0), .mult = mc_opt("mult", 0) };
  mc_allow_crash(0);
  hh_setup(&c);
  if (mc_opt("frag", 0)) { frag(); return; }
  size_t live1 = 0, mapped1 = 0, heap1 = 0;
  size_t na = strlen(alpha);
  for (int i = 0; i < depth; i++) { prog[i] = alpha[mc_choose(na)]; mc_log("%c ", prog[i]); }
  for (int r = 0; r < rounds; r++) {
    for (const char *s = mc_optstr("pre", ""); *s; s++) op(0, *s, 1);
    for (int i = 0; i < depth; i++) { op(0, prog[i], 1); hh_verify(); }
    drop();
    hh_seen();
    mc_log("[live %zu/%zu mapped %zu] ", H->live_size, hh_live_bytes(), mc_mapped_total());
#if !GC_CONSERVATIVE_ROOTS && !GC_CONSERVATIVE_TRACE
    size_t want = hh_live_bytes();     // a finalizer's closure may hold its own object for ever
    if (H->live_size > want + mc_opt("slack", 0)) mc_fail("%zu bytes are reachable, yet after several full collections %zu bytes are reported live (round %d)", want, H->live_size, r);
#endif
    if (r == 1) { live1 = H->live_size; mapped1 = mc_mapped_total(); heap1 = H->heap_size; }
    if (r > 1 && c.policy == 0 && !hh_live_bytes() && mc_mapped_total() > mapped1)
      mc_fail("memory mapped grew from %zu to %zu although the program only repeats itself (round %d)", mapped1, mc_mapped_total(), r);
  }
  // ... and all of it is there to be used: several times the heap, in every size class
  for (const char *s = mc_optstr("post", "GMgMG"); *s; s++) { op(0, *s, 1); op(0, *s, 1); op(0, *s, 1); }
  if (c.policy == 0 && mc_mapped_total() > mapped1 + heap1) mc_fail("memory mapped grew from %zu to %zu", mapped1, mc_mapped_total());
  hh_check_events();
  mc_outcome(mc_hash(live1, mc_mapped_total()));
}
