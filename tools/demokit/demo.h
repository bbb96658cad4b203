// A little embedder program kit: objects are { tag, fields..., payload }.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "gc-api.h"
#include "gc-ephemeron.h"
#include "gc-finalizer.h"
#include "demo-embedder.h"
static struct gc_heap *heap; static struct gc_mutator *mut; static struct gc_mutator_roots R; static struct gc_heap_roots HR;
static int gcs, minors, majors, last_kind; static size_t live_size, resized_to; static size_t fin_announced;
static void n0(void *d) {}
static void ev_init(void *d, size_t s) {}
static void ev_prep(void *d, enum gc_collection_kind k) { gcs++; last_kind = k; if (k == GC_COLLECTION_MINOR) minors++; else majors++; }
static void *ev_add(void *d) { return d; }
static void ev_size(void *d, size_t s) { resized_to = s; }
static void ev_live(void *d, size_t s) { live_size = s; }
static const struct gc_event_listener L = { ev_init, n0, n0, n0, ev_prep, n0, n0, n0, n0, n0, ev_add, n0, n0, n0, n0, n0, ev_size, ev_live };
static void fin_cb(struct gc_heap *h, size_t n) { fin_announced += n; }
#define FAIL(...) do { fprintf(stderr, "FAIL: " __VA_ARGS__); fputc('\n', stderr); exit(1); } while (0)
static void setup2(size_t size, int par, int policy) {
  struct gc_options *o = gc_allocate_options();
  gc_options_set_int(o, GC_OPTION_HEAP_SIZE_POLICY, policy);
  gc_options_set_size(o, GC_OPTION_HEAP_SIZE, size);
  gc_options_set_int(o, GC_OPTION_PARALLELISM, par);
  if (!gc_init(o, gc_empty_stack_addr(), &heap, &mut, L, NULL)) FAIL("gc_init");
  R.n = 32; gc_mutator_set_roots(mut, &R); HR.n = 32; gc_heap_set_roots(heap, &HR);
  gc_set_finalizer_callback(heap, fin_cb);
}
static void setup(size_t size) { setup2(size, 1, 0); }
static struct mo *node_m(struct gc_mutator *m, int id, int nf, size_t size) {
  if (size < 8 + 8u * nf) size = 8 + 8 * nf;
  struct mo *o = gc_allocate(m, size, GC_ALLOCATION_TAGGED);
  if (!o) FAIL("allocation returned null");
  o->tag = MO_TAG(MO_NODE, size, nf, id);
  return o;
}
static struct mo *node(int id, int nf, size_t size) { return node_m(mut, id, nf, size); }
static void store_m(struct gc_mutator *m, struct mo *o, int i, struct mo *v) {
  gc_write_barrier(m, gc_ref_from_heap_object(o), mo_size(o->tag), gc_edge(&o->f[i]), gc_ref_from_heap_object(v));
  o->f[i] = v;
}
static void store(struct mo *o, int i, struct mo *v) { store_m(mut, o, i, v); }
static void check(struct mo *o, int id, int nf, size_t size, const char *what) {
  if (size < 8 + 8u * nf) size = 8 + 8 * nf;
  if (o->tag != MO_TAG(MO_NODE, size, nf, id)) FAIL("%s: object %d has header %#lx", what, id, (long)o->tag);
}
#define MAJOR() gc_collect(mut, GC_COLLECTION_MAJOR)
#define MINOR() gc_collect(mut, GC_COLLECTION_MINOR)
#define COMPACT() gc_collect(mut, GC_COLLECTION_COMPACTING)
// dirty the free space
static void churn(size_t size, size_t total) {
  for (size_t n = 0; n < total; n += size) { struct mo *o = node(0xffff, 0, size); memset(o->f, 0x77, size - 8); }
}
static struct gc_ephemeron *ephemeron(int id, void *k, void *v) {
  struct gc_ephemeron *e = gc_allocate_ephemeron(mut);
  *(uintptr_t *)e = MO_TAG(MO_EPH, 0, 0, id);
  gc_ephemeron_init(mut, e, gc_ref((uintptr_t)k), gc_ref((uintptr_t)v));
  return e;
}
static void finalizer(int id, int prio, void *o, void *c) {
  struct gc_finalizer *f = gc_allocate_finalizer(mut);
  *(uintptr_t *)f = MO_TAG(MO_FIN, 0, 0, id);
  gc_finalizer_attach(mut, f, prio, gc_ref((uintptr_t)o), gc_ref((uintptr_t)c));
}
