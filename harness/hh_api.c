// The calls that expand whippet's inline fast paths; compiled with the same
// instrumentation as the collector itself.
#include "gc-api.h"
void *ha_alloc(struct gc_mutator *m, size_t size, int kind) { return gc_allocate(m, size, kind); }
void *ha_alloc_fast(struct gc_mutator *m, size_t size, int kind) { return gc_allocate_fast(m, size, kind); }
void ha_store(struct gc_mutator *m, void *obj, size_t size, void **slot, void *val) {
  gc_write_barrier(m, gc_ref_from_heap_object(obj), size, gc_edge(slot), gc_ref_from_heap_object(val));
  *(void *volatile *)slot = val;
}
void ha_store_slow(struct gc_mutator *m, void *obj, size_t size, void **slot, void *val) {
  gc_write_barrier_slow(m, gc_ref_from_heap_object(obj), size, gc_edge(slot), gc_ref_from_heap_object(val));
  *(void *volatile *)slot = val;
}
void ha_store_nobarrier(void **slot, void *val) { *(void *volatile *)slot = val; }
int ha_barrier_fast(struct gc_mutator *m, void *obj, size_t size, void **slot, void *val) {
  return gc_write_barrier_fast(m, gc_ref_from_heap_object(obj), size, gc_edge(slot), gc_ref_from_heap_object(val));
}
int ha_is_old(struct gc_mutator *m, void *obj, size_t size) {
  if (gc_old_generation_check_kind(size) == GC_OLD_GENERATION_CHECK_NONE) return 0;
  return gc_object_is_old_generation(m, gc_ref_from_heap_object(obj), size);
}
int ha_is_old_slow(struct gc_mutator *m, void *obj) {
  return gc_object_is_old_generation_slow(m, gc_ref_from_heap_object(obj));
}
void ha_safepoint(struct gc_mutator *m) { gc_safepoint(m); }
int ha_should_stop(struct gc_mutator *m) { return gc_should_stop_for_safepoint(m); }

// An embedder's compiler: the same operations spelled out from the published
// attributes alone.
static size_t granules(size_t size) { size_t g = gc_allocator_small_granule_size(); return (size + g - 1) / g; }
static uint8_t *alloc_table_byte(uintptr_t addr) {
  size_t al = gc_allocator_alloc_table_alignment();
  return (uint8_t *)(addr / al * al + addr % al / gc_allocator_small_granule_size());
}
void *ja_alloc(struct gc_mutator *m, size_t size, int kind) {
  if (size > gc_allocator_large_threshold() || gc_allocator_kind() != GC_ALLOCATOR_INLINE_BUMP_POINTER)
    return gc_allocate_slow(m, size, kind);
  uintptr_t *hp = (uintptr_t *)((char *)m + gc_allocator_allocation_pointer_offset());
  uintptr_t *lim = (uintptr_t *)((char *)m + gc_allocator_allocation_limit_offset());
  size_t n = granules(size);
  uintptr_t p = *hp;
  if (*lim < p || *lim - p < n * gc_allocator_small_granule_size()) return gc_allocate_slow(m, size, kind);
  *hp = p + n * gc_allocator_small_granule_size();
  if (gc_allocator_alloc_table_alignment()) {
    uint8_t *t = alloc_table_byte(p);
    if (gc_allocator_alloc_table_end_pattern()) {
      for (size_t i = 0; i < n; i++)
        t[i] = (i == 0 ? gc_allocator_alloc_table_begin_pattern(kind) : 0) | (i == n - 1 ? gc_allocator_alloc_table_end_pattern() : 0);
    } else t[0] = gc_allocator_alloc_table_begin_pattern(kind);
  }
  return (void *)p;
}
int ja_is_old(struct gc_mutator *m, void *obj, size_t size) {
  switch (gc_old_generation_check_kind(size)) {
  case GC_OLD_GENERATION_CHECK_NONE: return 0;
  case GC_OLD_GENERATION_CHECK_ALLOC_TABLE: {
    uint8_t b = __atomic_load_n(alloc_table_byte((uintptr_t)obj), __ATOMIC_RELAXED);
    return (b & gc_old_generation_check_alloc_table_tag_mask()) != gc_old_generation_check_alloc_table_young_tag();
  }
  case GC_OLD_GENERATION_CHECK_SMALL_OBJECT_NURSERY: {
    struct gc_heap *h = gc_mutator_heap(m);
    return (uintptr_t)obj < gc_small_object_nursery_low_address(h) || (uintptr_t)obj >= gc_small_object_nursery_high_address(h);
  }
  default: return gc_object_is_old_generation_slow(m, gc_ref_from_heap_object(obj));
  }
}
// 1 if the store has to be announced.
int ja_barrier_fast(struct gc_mutator *m, void *obj, size_t size, void **slot) {
  switch (gc_write_barrier_kind(size)) {
  case GC_WRITE_BARRIER_NONE: return 0;
  case GC_WRITE_BARRIER_FIELD: {
    if (!ja_is_old(m, obj, size)) return 0;
    size_t al = gc_write_barrier_field_table_alignment(), per = gc_write_barrier_field_fields_per_byte();
    size_t field = (uintptr_t)slot % al / sizeof(uintptr_t);
    uint8_t *b = (uint8_t *)((uintptr_t)slot / al * al + gc_write_barrier_field_table_offset() + field / per);
    return !(__atomic_load_n(b, __ATOMIC_RELAXED) & (gc_write_barrier_field_first_bit_pattern() << field % per));
  }
  default: return 1;
  }
}
void ja_store(struct gc_mutator *m, void *obj, size_t size, void **slot, void *val) {
  if (ja_barrier_fast(m, obj, size, slot))
    gc_write_barrier_slow(m, gc_ref_from_heap_object(obj), size, gc_edge(slot), gc_ref_from_heap_object(val));
  *(void *volatile *)slot = val;
}
void ja_safepoint(struct gc_mutator *m) {
  if (gc_safepoint_mechanism() == GC_SAFEPOINT_MECHANISM_COOPERATIVE && gc_cooperative_safepoint_kind() != GC_COOPERATIVE_SAFEPOINT_NONE)
    if (__atomic_load_n(gc_safepoint_flag_loc(m), __ATOMIC_RELAXED)) gc_safepoint_slow(m);
}
void *ha_alloc_slow(struct gc_mutator *m, size_t size, int kind) { return gc_allocate_slow(m, size, kind); }
void ha_safepoint_slow(struct gc_mutator *m) { gc_safepoint_slow(m); }
