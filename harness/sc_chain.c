// Several threads push ephemerons onto one chain, traverse it and mark members dead.
//   --opt t0= t1= t2= : programs of p (push a new one), t (traverse), k (kill one of
//   those pushed before the start), j (kill the one this thread pushed last), * (any)
//   --opt pre=N: how many are on the chain at first; --opt deadmask: which are dead then
#include "hh.h"
#include <pthread.h>
#include <stdio.h>
#include <string.h>
const char *mc_harness_name = "chain-" HH_CONFIG;
#define NE 12
static struct gc_ephemeron *e[NE];
static struct { int push0, push1, kill0, kill1; } t[NE];   // when each push and kill began and ended
static int clk, ne, npre;
static struct gc_ephemeron **head;
static const char *prog[3];
static pthread_t th[3];

static int which(struct gc_ephemeron *x) {
  for (int i = 0; i < ne; i++) if (e[i] == x) return i;
  mc_fail("the chain contains %p, which is no ephemeron of it", (void *)x);
}
// own[]: fresh ephemerons for each thread
static int next_own[3], last_own[3];
static void push(int th, int i) {
  last_own[th] = i;
  t[i].push0 = ++clk; gc_ephemeron_chain_push(head, e[i]); t[i].push1 = ++clk;
}
static void kill(int i) {
  if (t[i].kill0) { gc_ephemeron_mark_dead(e[i]); return; }
  t[i].kill0 = ++clk; gc_ephemeron_mark_dead(e[i]); t[i].kill1 = ++clk;
}
static void traverse(const char *when) {
  int begin = ++clk, seen[NE] = { 0 }, order[NE], n = 0;
  for (struct gc_ephemeron *x = gc_ephemeron_chain_head(head); x; x = gc_ephemeron_chain_next(x)) {
    int i = which(x);
    if (seen[i]++) mc_fail("%s: ephemeron %d is on the chain twice", when, i);
    order[n++] = i;
    int k = gc_ref_is_null(gc_ephemeron_key(x)), v = gc_ref_is_null(gc_ephemeron_value(x));
    if (k && !t[i].kill0) mc_fail("%s: ephemeron %d has no key, but nobody marked it dead", when, i);
    if (!k && v) { k = gc_ref_is_null(gc_ephemeron_key(x)); if (!k && !t[i].kill0) mc_fail("%s: ephemeron %d has a key but no value", when, i); }
  }
  int end = ++clk;
  for (int i = 0; i < ne; i++) {
    int on = t[i].push1 && t[i].push1 < begin, started = t[i].push0 && t[i].push0 < end;
    int dead = t[i].kill1 && t[i].kill1 < begin, alive = !t[i].kill0 || t[i].kill0 > end;
    if (seen[i] && !started) mc_fail("%s: ephemeron %d is on the chain before it is pushed", when, i);
    if (seen[i] && dead) mc_fail("%s: returned ephemeron %d, which was dead before", when, i);
    if (!seen[i] && on && alive) mc_fail("%s: ephemeron %d is lost: it was on the chain and alive throughout", when, i);
  }
  for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++)
    if (t[order[a]].push1 && t[order[a]].push1 < t[order[b]].push0) mc_fail("%s: ephemeron %d comes before %d, which was pushed after it", when, order[a], order[b]);
}
static void program(int me, const char *s) {
  for (; *s; s++) {
    char c = *s;
    if (c == '*') c = "ptkj"[mc_choose(4)];
    mc_log("%d:%c ", me, c);
    switch (c) {
    case 'p': push(me, next_own[me]); next_own[me] += 3; break;
    case 't': traverse("traversal"); break;
    case 'k': if (npre) kill(mc_choose(npre)); break;
    case 'j': if (last_own[me] >= 0) kill(last_own[me]); break;
    }
  }
}
static void *main2(void *a) { int me = (int)(uintptr_t)a; program(me, prog[me]); return NULL; }

void mc_harness(void) {
  struct hh_config c = { .heap = mc_opt("heap", 2 << 20), .par = 1 };
  mc_sched_enable(0);
  hh_setup(&c);
  npre = mc_opt("npre", 2);
  int mask = mc_opt("anydead", 0) ? (int)mc_choose(1 << npre) : 0;
  prog[0] = mc_optstr("t0", ""); prog[1] = mc_optstr("t1", ""); prog[2] = mc_optstr("t2", "");
  hh_node(0, 2, 24, 0); hh_heap_root(0, 0, 0);
  ne = npre + 9 > NE ? NE : npre + 9;
  for (int i = 0; i < ne; i++) { hh_ephemeron(0, 2, 0, 0); e[i] = hh_addr(0, 2); }
  head = (struct gc_ephemeron **)&H->hroots->slot[1];
  for (int i = 0; i < npre; i++) { push(0, i); if (mask >> i & 1) kill(i); }
  for (int i = 0; i < 3; i++) next_own[i] = npre + i, last_own[i] = -1;
  mc_quiesce();
  mc_sched_enable(1);
  for (uintptr_t i = 1; i < 3; i++) if (prog[i][0]) pthread_create(&th[i], NULL, main2, (void *)i);
  program(0, prog[0]);
  for (int i = 1; i < 3; i++) if (prog[i][0]) pthread_join(th[i], NULL);
  mc_sched_enable(0);
  traverse("afterwards");
  // ... and so it is after a collection
  uint64_t h = 0; uintptr_t ids[NE]; int n = 0, m = 0;
  for (struct gc_ephemeron *x = gc_ephemeron_chain_head(head); x; x = gc_ephemeron_chain_next(x)) { ids[n++] = ((struct mo *)x)->tag; h = mc_hash(h, which(x)); }
  H->no_model_gc = 1;
  gc_collect(H->m[0].mut, mc_opt("kind", GC_COLLECTION_COMPACTING));
  for (struct gc_ephemeron *x = gc_ephemeron_chain_head(head); x; x = gc_ephemeron_chain_next(x), m++)
    if (m >= n || ((struct mo *)x)->tag != ids[m]) mc_fail("the chain is different after a collection");
  if (m != n) mc_fail("after a collection the chain has %d members instead of %d", m, n);
  mc_outcome(h);
}
