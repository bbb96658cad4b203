// Every sequence of heap operations, up to a depth, over a chosen alphabet, from
// a chosen prefix; the whole heap is compared with the shadow model as it goes.
//   --opt alpha=<op letters> --opt depth=N --opt pre=<op letters> --opt post=<op letters>
#include "ops.h"
const char *mc_harness_name = "ops-" HH_CONFIG;


void mc_harness(void) {
  const char *alpha = mc_optstr("alpha", "abslx123g"), *pre = mc_optstr("pre", ""), *post = mc_optstr("post", "");
  int ctr = mc_opt("ctr", 0);
  int depth = mc_opt("depth", 4);
  ops_opts();
  struct hh_config c = { .heap = heap_size, .par = mc_opt("par", 1), .policy = mc_opt("policy", 0), .mult = mc_opt("mult", 0), .max = mc_opt("max", 0) };
  mc_allow_crash(0);
  hh_setup(&c);
  H->compare_paths = mc_opt("paths", 0);
  if (mc_opt("ext", 0)) { hh_extern(0, 11, 1); }
  run(0, pre);
  for (int i = 0; i < depth; i++) {
    char en[64]; int n = 0;
    for (const char *s = alpha; *s; s++) if (op(0, *s, 0)) en[n++] = *s;
    if (!n) break;
    int k = mc_choose(n);
    H->path[0] = H->compare_paths && strchr("abmnklpPQrjstS=;V", en[k]) ? mc_choose(3) : 0;
    mc_log(H->compare_paths ? "%c/%d " : "%c ", en[k], H->path[0]);
    op(0, en[k], 1);
    hh_verify();
    if (ctr) hh_check_counter(ctr == 1);
    hh_seen();
  }
  run(0, post);
  hh_collect(0, GC_COLLECTION_MAJOR); hh_verify();
  hh_drain(0, 5);
  hh_collect(0, GC_COLLECTION_MAJOR); hh_verify();
  hh_drain(0, 5);
  hh_verify();
  if (ctr) hh_check_counter(0);
  hh_check_events();
  // idle for a while, the heap occupies no more memory than its size
  int idle = mc_opt("idle", 0);
  if (idle) {
    size_t before = mc_resident();
    for (int i = 0; i < idle; i++) mc_tick();
    size_t now = mc_resident();
    hh_verify();
    mc_log("resident %zu -> %zu of %zu, heap %zu ", before, now, mc_mapped_total(), H->heap_size);
    if (now > H->heap_size + H->heap_size / 16 + 500000)
      mc_fail("after %d idle seconds a %zu-byte heap occupies %zu bytes (%zu before)", idle, H->heap_size, now, before);
    if (mc_opt("show", 0)) mc_fail("after %d idle seconds a %zu-byte heap occupies %zu bytes (%zu before)", idle, H->heap_size, now, before);
  }
  mc_outcome(hh_state_hash());
}
