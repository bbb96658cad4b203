// The operating system refuses requests: every choice of up to --faults requests,
// made during start-up and every bounded sequence of operations.
//   --opt refuse=1 mmap | 2 threads | 4 madvise    --opt alpha=.. depth pre post policy
#include "ops.h"
const char *mc_harness_name = "refuse-" HH_CONFIG;

static void step(char o) {
  if (o == '^') { mc_tick(); hh_verify(); }
  else if (op(0, o, 1)) { hh_verify(); hh_seen(); }
}
void mc_harness(void) {
  const char *alpha = mc_optstr("alpha", "abl2G");
  int depth = mc_opt("depth", 1), refuse = mc_opt("refuse", 1);
  ops_opts();
  struct hh_config c = { .heap = heap_size, .par = mc_opt("par", 1), .policy = mc_opt("policy", 0), .mult = mc_opt("mult", 0) };
  mc_allow_crash(refuse & 8 ? 3 : 2);     // malloc is not asked whether it succeeded everywhere
  if (refuse & 1) mc_inject_mmap = 1;
  if (refuse & 2) mc_inject_thread = 1;
  if (refuse & 4) mc_inject_madvise = 1;
  if (refuse & 8) mc_inject_malloc = 1;
  if (!mc_opt("init", 1)) mc_inject_mmap = mc_inject_thread = mc_inject_madvise = mc_inject_malloc = 0;
  int ok = hh_setup_try(&c);
  if (!ok) {
    if (!mc_faults_taken) mc_fail("gc_init failed, although nothing was refused");
    mc_count(30);
    mc_outcome(1);
    return;
  }
  if (refuse & 1) mc_inject_mmap = 1;
  if (refuse & 4) mc_inject_madvise = 1;
  if (refuse & 8) mc_inject_malloc = 1;
  size_t n = strlen(alpha);
  const char *pre = mc_optstr("pre", "");
  for (const char *s = pre; *s; s++) step(*s);
  for (int i = 0; i < depth; i++) {
    char o = alpha[mc_choose(n)];
    mc_log("%c ", o);
    step(o);
  }
  // from now on the system is generous again; everything still works
  mc_inject_mmap = mc_inject_thread = mc_inject_madvise = mc_inject_malloc = 0;
  if (mc_faults_taken) mc_count(31);
  for (const char *s = mc_optstr("post", "as2lbgM3"); *s; s++) step(*s);
  hh_verify();
  hh_check_events();
  mc_outcome(hh_state_hash());
}
