// Field sets (remembered sets): several writers and visitors at once, every schedule.
// No edge that was added and not forgotten is lost, none is duplicated.
//   --opt pre=<edges added beforehand> --opt clear=<1: then cleared, so that emptied buffers exist>
//   --opt w0= w1= w2=<edges each writer adds; then it releases its buffer>  --opt visit=<edges re-added by one visitor thread>
#define GC_IMPL 1
#include <stdio.h>
#include <string.h>
#include <stdatomic.h>
#include <pthread.h>
#include "gc-assert.h"
#include "gc-inline.h"
#include "field-set.h"
#include "comp.h"
const char *mc_harness_name = "fieldset";

#define MAXE 4096
static struct gc_edge_buffer *bufs[64]; static int nbufs;
static inline void gc_tracer_add_root(struct gc_tracer *t, struct gc_root r) {
  mc_check(r.kind == GC_ROOT_KIND_EDGE_BUFFER && nbufs < 64, "unexpected root of kind %d", r.kind);
  bufs[nbufs++] = r.edge_buffer;
}
static struct gc_field_set set;
static unsigned char want[MAXE];     // 1: should be in the set
static unsigned next_edge;
static struct gc_edge edge_of(unsigned i) { return gc_edge((void*)(uintptr_t)(8 * (i + 1))); }
static unsigned edge_no(struct gc_edge e) { return gc_edge_address(e) / 8 - 1; }

static void *writer(void *arg) {
  long n = (long)arg;
  struct gc_field_set_writer w;
  gc_field_set_writer_init(&w, &set);
  while (n--) {
    mc_atomic_begin(); unsigned e = next_edge++; want[e] = 1; mc_atomic_end();
    gc_field_set_writer_add_edge(&w, edge_of(e));
  }
  gc_field_set_writer_release_buffer(&w);
  return NULL;
}
static int keep_even(struct gc_edge e, struct gc_heap *h, void *d) {
  mc_atomic_begin();
  unsigned i = edge_no(e); (*(int*)d)++;
  mc_check(i < next_edge && want[i] == 1, "visited edge %u, which is not in the set", i);
  int keep = !(i % 3 == 0);
  if (!keep) want[i] = 0;
  mc_atomic_end();
  return keep;
}
static void *visitor(void *arg) {
  int n = 0;
  gc_field_set_visit_edge_buffer(&set, arg, keep_even, NULL, &n);
  return (void*)(long)n;
}
static unsigned forgot;
static void forget(struct gc_edge e, struct gc_heap *h) {
  unsigned i = edge_no(e);
  mc_check(i < next_edge && want[i] == 1, "forgot edge %u, which was not in the set", i);
  want[i] = 0; forgot++;
}
static void collect_and_compare(const char *when) {
  static unsigned char seen[MAXE];
  memset(seen, 0, sizeof seen);
  nbufs = 0;
  gc_field_set_add_roots(&set, NULL);
  for (int i = 0; i < nbufs; i++) {
    mc_check(bufs[i]->size <= GC_EDGE_BUFFER_CAPACITY, "a buffer of %zu edges", bufs[i]->size);
    for (size_t j = 0; j < bufs[i]->size; j++) {
      unsigned e = edge_no(bufs[i]->edges[j]);
      mc_check(e < next_edge && want[e], "%s: edge %u is in the set but should not be", when, e);
      mc_check(!seen[e]++, "%s: edge %u is in the set twice", when, e);
    }
  }
  for (unsigned e = 0; e < next_edge; e++)
    mc_check(!want[e] || seen[e], "%s: edge %u was lost", when, e);
  mc_outcome(mc_hash(nbufs, next_edge));
}

void mc_harness(void) {
  long pre = mc_opt("pre", 0), clear = mc_opt("clear", 0), visit = mc_opt("visit", 0);
  long w[3] = { mc_opt("w0", 1), mc_opt("w1", 1), mc_opt("w2", 0) };
  mc_sched_enable(0);
  gc_field_set_init(&set);
  if (clear) { writer((void*)clear); gc_field_set_clear(&set, forget, NULL); mc_check(forgot == clear, "clear forgot %u of %ld edges", forgot, clear); collect_and_compare("cleared"); }
  if (pre) writer((void*)pre);
  struct gc_edge_buffer *vb[4]; int nv = 0;
  if (visit) {
    collect_and_compare("before");
    mc_check(nbufs >= visit, "%d buffers", nbufs);
    // all but `visit` of them go straight back
    for (int i = 0; i < nbufs; i++) if (nv < visit) vb[nv++] = bufs[i]; else gc_field_set_release_buffer(&set, bufs[i]);
  }
  mc_sched_enable(1);
  pthread_t th[8]; int n = 0;
  for (int i = 1; i < 3; i++) if (w[i]) pthread_create(&th[n++], NULL, writer, (void*)w[i]);
  for (int i = 0; i < nv; i++) pthread_create(&th[n++], NULL, visitor, vb[i]);
  writer((void*)w[0]);
  for (int i = 0; i < n; i++) pthread_join(th[i], NULL);
  mc_sched_enable(0);
  collect_and_compare("after");
  int kept = 0;
  for (int i = 0; i < nbufs; i++) gc_field_set_visit_edge_buffer(&set, bufs[i], keep_even, NULL, &kept);
  collect_and_compare("visited");
  for (int i = 0; i < nbufs; i++) gc_field_set_release_buffer(&set, bufs[i]);
  gc_field_set_clear(&set, forget, NULL);
  for (unsigned e = 0; e < next_edge; e++) mc_check(!want[e], "edge %u was not forgotten", e);
  writer((void*)600);
  collect_and_compare("reused");
}
