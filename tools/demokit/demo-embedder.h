// Embedder used by every heap harness: whippet's code is compiled against this.
#ifndef DEMO_EMBEDDER_H
#define DEMO_EMBEDDER_H
#include <stdatomic.h>
#include <stdint.h>
#include <stddef.h>

#include "gc-config.h"
#include "gc-embedder-api.h"
#include "gc-ephemeron.h"
#include "gc-finalizer.h"

struct gc_header { uintptr_t tag; };
#define GC_EMBEDDER_EPHEMERON_HEADER struct gc_header header;
#define GC_EMBEDDER_FINALIZER_HEADER struct gc_header header;

enum mo_kind { MO_NODE = 1, MO_LEAF, MO_EPH, MO_FIN };

// tag: bit 0 set (not forwarded); kind bits 1-3; size bits 4-31; number of
// fields bits 32-47; logical id bits 48-63.  Objects of one word fit.
struct mo { uintptr_t tag; void *f[]; };
#define MO_TAG(kind, size, nf, id) \
  (1ull | ((uintptr_t)(kind) << 1) | ((uintptr_t)(size) << 4) | ((uintptr_t)(nf) << 32) | ((uintptr_t)(id) << 48))
static inline unsigned mo_kind(uintptr_t t) { return (t >> 1) & 7; }
static inline size_t mo_size(uintptr_t t) { return (t >> 4) & 0xfffffff; }
static inline unsigned mo_nf(uintptr_t t) { return (t >> 32) & 0xffff; }
static inline unsigned mo_id(uintptr_t t) { return t >> 48; }

struct gc_mutator_roots { unsigned n; void *slot[32]; };
struct gc_heap_roots { unsigned n; void *slot[32]; };

#ifndef MC_PRIORITIES
#define MC_PRIORITIES 3
#endif
static inline size_t gc_finalizer_priority_count(void) { return MC_PRIORITIES; }

static inline int gc_is_valid_conservative_ref_displacement(uintptr_t d) { return d == 0; }

// External objects: `next` in mo at a fixed table; see hh.h.
struct mc_extern_obj { uintptr_t addr; size_t size; int marked; int visits; };
struct gc_extern_space {
  int n; struct mc_extern_obj obj[8];
  int in_gc, last_minor, starts, finishes; int bad;
};
static inline int gc_extern_space_visit(struct gc_extern_space *sp, struct gc_edge edge, struct gc_ref ref) {
  if (!sp) __builtin_trap();
  for (int i = 0; i < sp->n; i++)
    if (sp->obj[i].addr == gc_ref_value(ref)) {
      __atomic_fetch_add(&sp->obj[i].visits, 1, __ATOMIC_RELAXED);
      return __atomic_exchange_n(&sp->obj[i].marked, 1, __ATOMIC_ACQ_REL) == 0;
    }
  sp->bad = 1;
  return 0;
}
static inline void gc_extern_space_start_gc(struct gc_extern_space *sp, int minor) {
  if (!sp) return;
  if (sp->in_gc) sp->bad = 2;
  sp->in_gc = 1; sp->last_minor = minor; sp->starts++;
  for (int i = 0; i < sp->n; i++) sp->obj[i].marked = 0;
}
static inline void gc_extern_space_finish_gc(struct gc_extern_space *sp, int minor) {
  if (!sp) return;
  if (!sp->in_gc) sp->bad = 3;
  if (sp->last_minor != minor) sp->bad = 4;
  sp->in_gc = 0; sp->finishes++;
}

static inline size_t mo_any_size(uintptr_t tag) {
  switch (mo_kind(tag)) {
  case MO_NODE: case MO_LEAF: return mo_size(tag);
  case MO_EPH: return gc_ephemeron_size();
  case MO_FIN: return gc_finalizer_size();
  default: __builtin_trap();
  }
}

static inline void gc_trace_object(struct gc_ref ref,
                                   void (*visit)(struct gc_edge, struct gc_heap *, void *),
                                   struct gc_heap *heap, void *data, size_t *size) {
  struct mo *o = (struct mo *)gc_ref_value(ref);
  uintptr_t tag = o->tag;
  if (visit)
    switch (mo_kind(tag)) {
    case MO_NODE:
      for (unsigned i = 0; i < mo_nf(tag); i++)
        visit(gc_edge(&o->f[i]), heap, data);
      break;
    case MO_LEAF: break;
    case MO_EPH: gc_trace_ephemeron((struct gc_ephemeron *)o, visit, heap, data); break;
    case MO_FIN: gc_trace_finalizer((struct gc_finalizer *)o, visit, heap, data); break;
    default: __builtin_trap();
    }
  if (size) *size = mo_any_size(tag);
}

static inline void gc_trace_mutator_roots(struct gc_mutator_roots *roots,
                                          void (*visit)(struct gc_edge, struct gc_heap *, void *),
                                          struct gc_heap *heap, void *data) {
  if (roots) for (unsigned i = 0; i < roots->n; i++) visit(gc_edge(&roots->slot[i]), heap, data);
}
static inline void gc_trace_heap_roots(struct gc_heap_roots *roots,
                                       void (*visit)(struct gc_edge, struct gc_heap *, void *),
                                       struct gc_heap *heap, void *data) {
  if (roots) for (unsigned i = 0; i < roots->n; i++) visit(gc_edge(&roots->slot[i]), heap, data);
}

static inline uintptr_t *mo_tag_word(struct gc_ref ref) { return (uintptr_t *)gc_ref_value(ref); }
static inline uintptr_t gc_object_forwarded_nonatomic(struct gc_ref ref) {
  uintptr_t tag = *mo_tag_word(ref);
  return (tag & 1) ? 0 : tag;
}
static inline void gc_object_forward_nonatomic(struct gc_ref ref, struct gc_ref n) {
  *mo_tag_word(ref) = gc_ref_value(n);
}
static inline struct gc_atomic_forward gc_atomic_forward_begin(struct gc_ref ref) {
  uintptr_t tag = atomic_load_explicit(mo_tag_word(ref), memory_order_acquire);
  enum gc_forwarding_state st = tag == 0 ? GC_FORWARDING_STATE_BUSY
    : (tag & 1) ? GC_FORWARDING_STATE_NOT_FORWARDED : GC_FORWARDING_STATE_FORWARDED;
  return (struct gc_atomic_forward){ ref, tag, st };
}
static inline int gc_atomic_forward_retry_busy(struct gc_atomic_forward *fwd) {
  uintptr_t tag = atomic_load_explicit(mo_tag_word(fwd->ref), memory_order_acquire);
  if (tag == 0) return 0;
  fwd->state = (tag & 1) ? GC_FORWARDING_STATE_NOT_FORWARDED : GC_FORWARDING_STATE_FORWARDED;
  fwd->data = tag;
  return 1;
}
static inline void gc_atomic_forward_acquire(struct gc_atomic_forward *fwd) {
  if (atomic_compare_exchange_strong(mo_tag_word(fwd->ref), &fwd->data, 0))
    fwd->state = GC_FORWARDING_STATE_ACQUIRED;
  else if (fwd->data == 0) fwd->state = GC_FORWARDING_STATE_BUSY;
  else if (fwd->data & 1) fwd->state = GC_FORWARDING_STATE_NOT_FORWARDED;
  else fwd->state = GC_FORWARDING_STATE_FORWARDED;
}
static inline void gc_atomic_forward_abort(struct gc_atomic_forward *fwd) {
  atomic_store_explicit(mo_tag_word(fwd->ref), fwd->data, memory_order_release);
  fwd->state = GC_FORWARDING_STATE_NOT_FORWARDED;
}
static inline size_t gc_atomic_forward_object_size(struct gc_atomic_forward *fwd) {
  return mo_any_size(fwd->data);
}
static inline void gc_atomic_forward_commit(struct gc_atomic_forward *fwd, struct gc_ref n) {
  *mo_tag_word(n) = fwd->data;
  atomic_store_explicit(mo_tag_word(fwd->ref), gc_ref_value(n), memory_order_release);
  fwd->state = GC_FORWARDING_STATE_FORWARDED;
}
static inline uintptr_t gc_atomic_forward_address(struct gc_atomic_forward *fwd) { return fwd->data; }
#endif
