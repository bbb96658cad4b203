#include "hh.h"
const char *mc_harness_name = "smoke-" HH_CONFIG;
void mc_harness(void) {
  struct hh_config c = { .heap = mc_opt("heap", 8 << 20), .par = mc_opt("par", 1), .policy = mc_opt("policy", 0) };
  hh_setup(&c);
  hh_node(0, 2, 0, 0); hh_leaf(0, 4000, 1); hh_node(0, 3, 20000, 2);
  hh_store(0, 0, 0, 1); hh_store(0, 2, 1, 0);
  hh_root(0, 0, -1); hh_root(0, 1, -1);
  hh_verify();
  hh_ephemeron(0, 3, 2, 2);
  for (int i = 0; i < 4; i++) {
    hh_collect(0, GC_COLLECTION_MAJOR + i % 2); hh_verify(); hh_check_events();
    hh_node(0, 1, 0, 4); hh_store(0, 2, 0, 4); hh_finalizer(0, 4, 2, 0); hh_root(0, 4, -1);
    hh_verify(); hh_store(0, 2, 0, -1);
    hh_drain(0, 5);
  }
  hh_garbage(0, 64, 20 << 20, GC_ALLOCATION_TAGGED, 1);
  hh_garbage(0, 20000, 20 << 20, GC_ALLOCATION_TAGGED_POINTERLESS, 0);
  hh_drain(0, 5);
  hh_verify();
  hh_check_events(); mc_log("gcs %lu", H->gcs);
}
