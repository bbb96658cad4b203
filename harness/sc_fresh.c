// Every sequence of allocations of every size class and kind, interleaved with
// collections, drops and dirty garbage, from a dirty and fragmented heap.  Each new
// object must be mapped, aligned, all zero and disjoint from every live one.
//   --opt depth=N --opt set=0|1 (all sizes | fewer) --opt pre=..
#include "ops.h"
#if HH_COLLECTOR_MMC
enum { raw_kinds = 1 };
#else
enum { raw_kinds = 0 };
#endif
const char *mc_harness_name = "fresh-" HH_CONFIG;
static const int all_sizes[] = { 8, 16, 17, 24, 136, 256, 264, 1001, 2048, 4096, 8176, 8190, 8192, 8193, 12288, 65536, 65544, 200000, 0 };
static const int few_sizes[] = { 8, 40, 1001, 8192, 8193, 200000, 0 };
void mc_harness(void) {
  const int *sizes = mc_opt("set", 0) ? few_sizes : all_sizes;
  int ns = 0; while (sizes[ns]) ns++;
  int depth = mc_opt("depth", 2), keep = mc_opt("keep", 4);
  ops_opts();
  struct hh_config c = { .heap = heap_size, .par = mc_opt("par", 1), .policy = mc_opt("policy", 0), .mult = mc_opt("mult", 0) };
  mc_allow_crash(0);
  hh_setup(&c);
  run(0, mc_optstr("pre", "gM"));
  static const int kinds[] = { GC_ALLOCATION_TAGGED, GC_ALLOCATION_TAGGED_POINTERLESS,
#if HH_COLLECTOR_MMC
    GC_ALLOCATION_UNTAGGED_POINTERLESS,
#if GC_CONSERVATIVE_TRACE
    GC_ALLOCATION_UNTAGGED_CONSERVATIVE,
#endif
#endif
  };
  int nk = sizeof kinds / sizeof *kinds;
  const char *other = "123gMGx";
  if (mc_opt("set", 0) == 2) {     // every size there is
    size_t size = mc_opt("lo", 8) + mc_choose(mc_opt("n", 8400)), kind = size < 8 ? 1 : mc_choose(raw_kinds + 1);
    mc_log("%zu ", size);
    for (int i = 0; i < 6; i++) {
      if (kind == 0) hh_leaf(0, size, i); else hh_raw(0, size, i);
      if (i == 2) op(0, '1', 1);
    }
    hh_verify();
    for (int i = 0; i < 6; i += 2) hh_root(0, i, -1);
    op(0, '2', 1); op(0, 'g', 1);
    for (int i = 0; i < 6; i += 2) if (kind == 0) hh_leaf(0, size, i); else hh_raw(0, size, i);
    hh_verify(); hh_seen();
    op(0, '3', 1);
    mc_outcome(hh_state_hash());
    return;
  }
  for (int d = 0; d < depth; d++) {
    int k = mc_choose(ns * nk + 7), slot = d % keep;
    if (k < ns * nk) {
      int size = sizes[k / nk], ak = kinds[k % nk];
      mc_log("%d/%d ", size, ak);
      switch (ak) {
      case GC_ALLOCATION_TAGGED: hh_alloc(0, MO_NODE, size, size >= 16, slot, ak); break;
      case GC_ALLOCATION_TAGGED_POINTERLESS: hh_leaf(0, size, slot); break;
      case GC_ALLOCATION_UNTAGGED_POINTERLESS: hh_raw(0, size, slot); break;
      default: hh_rawcons(0, size, size < 16 ? 0 : size < 24 ? 1 : 2, slot);
      }
      hh_verify();
    } else {
      char o = other[k - ns * nk];
      mc_log("%c ", o);
      if (o == 'x') for (int i = 0; i < keep; i++) hh_root(0, i, -1);
      else op(0, o, 1);
    }
    hh_seen();
  }
  run(0, mc_optstr("post", "gM3"));
  mc_outcome(hh_state_hash());
}
