// More and more live data of every mix of sizes, taken past what the heap can hold.
// An allocation returns storage of the heap or the program is terminated, and that
// only when the heap is really full; it never spins.
//   --opt depth=N --opt steps=K (each step adds heap/K of live data) --opt full=percent
#include "ops.h"
const char *mc_harness_name = "oom-" HH_CONFIG;
static int fixed;
static size_t live, full, biggest, residue;
static void want(size_t size) {
  // an object of this size, kept: dying is only right if it cannot fit
  mc_allow_crash(fixed && live + residue + size > full);
  if (size > biggest) biggest = size;
  hh_node(0, 1, size, 1);
  mc_allow_crash(0);
  if (!H->m[0].roots->slot[1]) mc_fail("allocation returned null");
  if (H->m[0].sh[0] > 0) hh_store(0, 1, 0, 0);
  hh_root(0, 0, 1); hh_root(0, 1, -1);
  live += size;
  if (fixed && live > heap_size) mc_fail("a heap of %zu bytes holds %zu bytes of live data", heap_size, live);
}
static void drop(void) {
#if GC_CONSERVATIVE_ROOTS || GC_CONSERVATIVE_TRACE
  // a stale word on the stack may hold on to any of the objects: unlink the chain,
  // so that it holds on to only a few
  while (H->m[0].roots->slot[0] && H->m[0].sh[0] > 0) {
    hh_load(0, 1, 0, 0);
    if (H->m[0].roots->slot[1] && H->m[0].sh[1] > 0) hh_store(0, 0, 0, -1);
    int end = !H->m[0].roots->slot[1] || H->m[0].sh[1] <= 0;
    hh_root(0, 0, end ? -1 : 1); hh_root(0, 1, -1);
  }
  residue = biggest;
#endif
  hh_root(0, 0, -1); live = 0;
}
void mc_harness(void) {
  int depth = mc_opt("depth", 6), steps = mc_opt("steps", 5), only = mc_opt("only", 0);
  ops_opts();
  struct hh_config c = { .heap = heap_size, .par = mc_opt("par", 1), .policy = mc_opt("policy", 0), .mult = mc_opt("mult", 0) };
  mc_allow_crash(0);
  hh_setup(&c);
  fixed = c.policy == 0;
  full = heap_size / 100 * mc_opt("full", 40);
  size_t add = heap_size / steps;
  size_t little = heap_size / 2200 / 8 * 8;
  if (little < 264) little = 264;
  size_t sizes[] = { little, little < 2000 ? 2000 : 3500, 8000, 30000, add, heap_size / 3, heap_size * 2 };
  int ns = sizeof sizes / sizeof *sizes;
  for (int d = 0; d < depth; d++) {
    int k = mc_choose(only ? 1 : ns + 2);
    if (only) k = only - 1;
    if (k == ns) { drop(); mc_log("drop "); continue; }
    if (k == ns + 1) { mc_log("collect "); mc_allow_crash(fixed && live + residue > full); hh_collect(0, GC_COLLECTION_MAJOR); mc_allow_crash(0); hh_verify(); continue; }
    mc_log("%zu ", sizes[k]);
    if (sizes[k] >= add) want(sizes[k]);
    else for (size_t n = 0; n < add; n += sizes[k]) want(sizes[k]);
    // garbage in between: what the program needs to go on
    mc_allow_crash(fixed && live + residue > full);
    hh_garbage(0, 200, heap_size / 2, GC_ALLOCATION_TAGGED, 0);
    mc_allow_crash(0);
    hh_verify(); hh_seen();
  }
  hh_check_events();
  mc_outcome(mc_hash(hh_state_hash(), live));
}
