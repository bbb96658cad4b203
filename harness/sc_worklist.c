// Tracing worklists against a first-in first-out reference.
//   --opt part=local|simple|root: every sequence of operations to --opt depth
//   --opt part=rootconc: several consumers of the roots, every schedule
#define GC_IMPL 1
#include <stdio.h>
#include <string.h>
#include <stdatomic.h>
#include <pthread.h>
#include <sys/mman.h>
#include "gc-assert.h"
#include "gc-ref.h"
#include "gc-edge.h"
#include "debug.h"
#include "gc-inline.h"
#include "gc-align.h"
#include "gc-platform.h"
#include "root-worklist.h"
#include "local-worklist.h"
#include "simple-worklist.h"
#include "comp.h"
const char *mc_harness_name = "worklist";

static unsigned long put, got;        // the reference: items got+1 .. put are inside, in order
static struct gc_ref item(unsigned long n) { return gc_ref(8 * n); }

// ---- local worklists
static struct local_worklist lw;
static const int lpops[] = { 1, 2, LOCAL_WORKLIST_SHARE_AMOUNT, LOCAL_WORKLIST_SIZE };
#define NLOCAL 7
static int local_op(int op) {
  size_t n = put - got;
  mc_check(local_worklist_size(&lw) == n && !local_worklist_empty(&lw) == (n > 0) && !!local_worklist_full(&lw) == (n == LOCAL_WORKLIST_SIZE),
           "size %zu (empty %d, full %d) with %zu items", local_worklist_size(&lw), local_worklist_empty(&lw), local_worklist_full(&lw), n);
  if (op == 0) {
    if (n == LOCAL_WORKLIST_SIZE) return 0;
    local_worklist_push(&lw, item(++put));
  } else if (op == 1) {
    if (!n) return 0;
    struct gc_ref r = local_worklist_pop(&lw);
    mc_check(gc_ref_value(r) == 8 * ++got, "popped %lx, not item %lu", gc_ref_value(r), got);
  } else if (op == 2) {       // fill up
    if (n == LOCAL_WORKLIST_SIZE) return 0;
    while (!local_worklist_full(&lw)) local_worklist_push(&lw, item(++put));
    mc_check(put - got == LOCAL_WORKLIST_SIZE, "full with %lu items", put - got);
  } else {
    struct gc_ref *v; int lim = lpops[op - 3];
    if (n < lim && op != 6) return 0;
    size_t k = local_worklist_pop_many(&lw, &v, lim);
    mc_check(k <= lim && k <= n && (k || !n), "took %zu of %zu items, limit %d", k, n, lim);
    for (size_t i = 0; i < k; i++) mc_check(gc_ref_value(v[i]) == 8 * ++got, "popped %lx, not item %lu", gc_ref_value(v[i]), got);
  }
  return 1;
}

// ---- simple worklists
static struct simple_worklist sw;
static const unsigned spush[] = { 1, 255, 511, 512, 513, 1500 };
#define NSIMPLE 13
static int simple_op(int op) {
  static struct gc_ref v[1500];
  if (op < 4) for (unsigned i = 0; i < spush[op]; i++) simple_worklist_push(&sw, item(++put));
  else if (op < 8) {
    unsigned k = spush[op - 2];
    for (unsigned i = 0; i < k; i++) v[i] = item(++put);
    simple_worklist_push_many(&sw, v, k);
  } else {
    unsigned long n = put - got;
    static const unsigned pops[] = { 1, 255, 513, 100000 };
    if (op == 12) { if (n) return 0; simple_worklist_release(&sw); return 1; }
    unsigned long k = pops[op - 8];
    if (k > n) { if (k != 100000) return 0; k = n; }
    while (k--) {
      struct gc_ref r = simple_worklist_pop(&sw);
      mc_check(gc_ref_value(r) == 8 * ++got, "popped %lx, not item %lu", gc_ref_value(r), got);
    }
    if (put == got) mc_check(!gc_ref_value(simple_worklist_pop(&sw)), "an empty worklist yields an item");
  }
  return 1;
}

// ---- root worklists: produce, then consume, then reset
static struct root_worklist rw;
static struct gc_root rootn(unsigned long n) { return gc_root_edge(gc_edge((void*)(8 * n))); }
#define NROOT 6
static int consuming;
static int root_op(int op) {
  static const unsigned k[] = { 1, 15, 17 };
  if (op < 3) {
    if (consuming) return 0;
    for (unsigned i = 0; i < k[op]; i++) root_worklist_push(&rw, rootn(++put));
    mc_check(root_worklist_size(&rw) == put - got, "size %zu with %lu roots", root_worklist_size(&rw), put - got);
  } else if (op == 5) {
    root_worklist_reset(&rw); got = put; consuming = 0;
    mc_check(root_worklist_size(&rw) == 0, "not empty after reset");
  } else {
    unsigned n = op == 3 ? 1 : 16;
    consuming = 1;
    while (n--) {
      struct gc_root r = root_worklist_pop(&rw);
      if (put == got) { mc_check(r.kind == GC_ROOT_KIND_NONE, "an empty worklist yields a root"); continue; }
      mc_check(r.kind == GC_ROOT_KIND_EDGE && gc_edge_address(r.edge) == 8 * ++got, "popped kind %d, not root %lu", r.kind, got);
    }
  }
  return 1;
}

static void sequences(int nops, int (*op)(int), void (*init)(void), void (*fini)(void), long depth, long heads) {
  unsigned char seq[16] = { 0 };
  // the first `heads` operations are choices, the rest an in-process loop
  long h = heads < depth ? heads : depth;
  for (long i = 0; i < h; i++) seq[i] = mc_choose(nops);
  for (;;) {
    put = got = 0; init();
    long i;
    for (i = 0; i < depth; i++) { mc_transition(); if (!op(seq[i])) break; }
    uint64_t hh = mc_hash(mc_hash(0, put), got); mc_state(hh);
    fini();
    if (i < h) break;             // not enabled within the fixed part
    // next sequence (skipping the extensions of a disabled one)
    if (i == depth) i--;
    while (i >= h && ++seq[i] == nops) seq[i--] = 0;
    if (i < h) break;
    for (long j = i + 1; j < depth; j++) seq[j] = 0;
  }
  uint64_t o = 0;
  for (long i = 0; i < h; i++) o = o * 31 + seq[i];
  mc_outcome(mc_hash(o, 1));
}
static void linit(void) { local_worklist_init(&lw); }
static void lfini(void) { while (put != got) local_op(1); local_op(0); local_op(1); }
static void sinit(void) { mc_check(simple_worklist_init(&sw), "init"); }
static void sfini(void) { simple_op(11); simple_op(0); simple_op(8); simple_worklist_destroy(&sw); }
static void rinit(void) { consuming = 0; root_worklist_init(&rw); }
static void rfini(void) { while (put != got) root_op(4); root_op(3); root_op(5); root_op(0); root_op(3); root_worklist_destroy(&rw); }

static unsigned char seen[64];
static void *consumer(void *a) {
  for (;;) {
    struct gc_root r = root_worklist_pop(&rw);
    mc_atomic_begin();
    if (r.kind == GC_ROOT_KIND_NONE) { mc_atomic_end(); return NULL; }
    unsigned long n = gc_edge_address(r.edge) / 8;
    mc_check(r.kind == GC_ROOT_KIND_EDGE && n >= 1 && n <= put, "popped a root of kind %d, %lu", r.kind, n);
    mc_check(!seen[n]++, "root %lu popped twice", n);
    got++;
    mc_atomic_end();
  }
}

void mc_harness(void) {
  const char *part = mc_optstr("part", "local");
  long depth = mc_opt("depth", 5), heads = mc_opt("heads", 1);
  if (!strcmp(part, "local")) sequences(NLOCAL, local_op, linit, lfini, depth, heads);
  else if (!strcmp(part, "simple")) sequences(NSIMPLE, simple_op, sinit, sfini, depth, heads);
  else if (!strcmp(part, "root")) sequences(NROOT, root_op, rinit, rfini, depth, heads);
  else {
    long n = mc_opt("roots", 3), k = mc_opt("consumers", 2);
    mc_sched_enable(0);
    root_worklist_init(&rw);
    for (long i = 0; i < n; i++) root_worklist_push(&rw, rootn(++put));
    mc_sched_enable(1);
    pthread_t th[4];
    for (int i = 0; i < k; i++) pthread_create(&th[i], NULL, consumer, NULL);
    consumer(NULL);
    for (int i = 0; i < k; i++) pthread_join(th[i], NULL);
    mc_check(got == put, "%lu of %lu roots were popped", got, put);
    root_worklist_reset(&rw);
    mc_check(root_worklist_pop(&rw).kind == GC_ROOT_KIND_NONE, "a reset worklist yields a root");
    mc_outcome(got);
  }
}
