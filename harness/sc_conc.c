// Two or three mutators run short programs (letters of ops.h) concurrently; every
// schedule up to the preemption bound.
//   --opt pre=.. --opt t0=.. --opt t1=.. --opt t2=.. --opt post=.. --opt alpha=..
// A program starts with its mutator added and heap root 0 in its root 0.  '<' and
// '>' within a program leave and rejoin, 'L' is both in turn, '~' at the start
// begins without a mutator.  '*' is every letter of alpha that is enabled then.
#include "ops.h"
#include <pthread.h>
const char *mc_harness_name = "conc-" HH_CONFIG;

static const char *prog[4];
static pthread_t th[4];
static int nthreads, ctr;

static const char *alpha;
static int program(int m, const char *s, int stay) {
  char one[2] = { 0 };
  for (; *s; s++) {
    int c = *s;
    if (c == '*') {
      char en[64]; int n = 0;
      for (const char *a = alpha; *a; a++) if (*a == 'L' ? m >= 0 : op(m, *a, 0)) en[n++] = *a;
      if (!n) continue;
      c = en[mc_choose(n)];
      mc_log("%d:%c ", m, c);
    }
    if (c == '<' || c == 'L') { hh_remove_mutator(m); m = -1; }
    if (c == '>' || c == 'L') { m = hh_add_mutator(); if (c == 'L') op(m, 'D', 1); }
    else if (c != '<') { one[0] = c; run(m, one); if (ctr) hh_check_counter(ctr == 1); }
  }
  if (m >= 0 && !stay) { hh_verify(); hh_remove_mutator(m); }
  return m;
}
static void *thread_main(void *arg) {
  int t = (int)(uintptr_t)arg;
  const char *s = prog[t];
  if (*s == '~') { s++; mc_point(); program(-1, s, 0); return NULL; }
  int m = hh_add_mutator();
  op(m, 'D', 1);
  program(m, s, 0);
  return NULL;
}
static void *join_all(void *arg) {
  for (int t = 1; t <= nthreads; t++) pthread_join(th[t], NULL);
  return arg;
}

void mc_harness(void) {
  ops_opts();
  alpha = mc_optstr("alpha", "a;56_L");
  prog[0] = mc_optstr("t0", ""); prog[1] = mc_optstr("t1", ""); prog[2] = mc_optstr("t2", ""); prog[3] = mc_optstr("t3", "");
  struct hh_config c = { .heap = heap_size, .par = mc_opt("par", 1), .policy = mc_opt("policy", 0), .mult = mc_opt("mult", 0) };
  mc_sched_enable(0);
  hh_setup(&c);
  ctr = mc_opt("ctr", 0);
  int paths = mc_opt("paths", 0);
  for (int i = 0; paths && i < HH_MAXM; i++) H->path[i] = (i + paths) % 3;
  run(0, mc_optstr("pre", ""));
  mc_quiesce();              // tracing workers and the background thread are parked
  mc_sched_enable(1);
  for (int t = 1; t < 4 && prog[t][0]; t++) { nthreads = t; pthread_create(&th[t], NULL, thread_main, (void *)(uintptr_t)t); }
  int m = program(0, prog[0], 1);
  if (nthreads && gc_call_without_gc(H->m[m].mut, join_all, H) != H) mc_fail("gc_call_without_gc lost the result");
  mc_sched_enable(0);
  run(m, mc_optstr("post", ""));
  hh_verify();
  uint64_t h = hh_state_hash();
  hh_collect(m, GC_COLLECTION_MAJOR); hh_verify();
  hh_drain(m, 5);
  hh_collect(m, GC_COLLECTION_MAJOR); hh_verify();
  hh_drain(m, 5);
  hh_collect(m, GC_COLLECTION_MINOR); hh_verify();
  hh_check_events();
  if (ctr) hh_check_counter(ctr == 1);
  if (H->mut_added != H->mut_removed + 1) mc_fail("event order: %d mutators added, %d removed", H->mut_added, H->mut_removed);
  mc_outcome(h);
}
