// Shadow-heap library: drives a whippet collector through its public API and
// keeps a logical model of every object, against which the real heap is compared.
#ifndef HH_H
#define HH_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include "mc.h"
#include "gc-api.h"
#include "gc-ephemeron.h"
#include "gc-finalizer.h"
#include "mc-embedder.h"

#define HH_PRECISE (!GC_CONSERVATIVE_ROOTS)
#if defined(HH_BDW)
#define HH_MOVES 0
#else
#define HH_MOVES 1
#endif

#define HH_MAXO 4000
#define HH_MAXM 4
#define HH_SLOTS 12
#define HH_GRANULE (gc_allocator_small_granule_size())

enum { HS_NONE = 0, HS_LIVE };
enum { FS_NONE, FS_ATTACHED, FS_FIRED, FS_POPPED };
struct so {
  uint8_t kind, used, dead, must_dead, chained, fstate, prio, pinned, ext, raw, swept;
  uint32_t size; int nf; int *f;            // fields: id, 0 = null, <0 = immediate
  int key, val, chain;                      // ephemerons
  int obj, clo; int may_fire, must_fire;    // finalizers
  uint64_t born;                            // gc count at birth
  uintptr_t addr; uint64_t addr_stamp;      // from the latest verification
  uintptr_t pin_addr;
};
struct hm { struct gc_mutator *mut; struct gc_mutator_roots *roots; int sh[HH_SLOTS]; int active; };
struct hh_gc { int kind; int major; };

struct hh_state {
  struct gc_heap *heap;
  struct so o[HH_MAXO]; int no;
  struct hm m[HH_MAXM]; int nm;
  struct gc_heap_roots *hroots; int hsh[HH_SLOTS];
  int *fpool; int nfpool;
  // conservative words living on a stack: address of word, object id
  struct { uintptr_t *w; int id; uintptr_t off; uintptr_t expect; } cw[8]; int ncw;
  struct gc_extern_space *ext;
  // events
  int ev_state; uint64_t gcs, majors, minors; int last_kind; int in_gc;
  int ev_bad; const char *ev_msg;
  size_t live_size, heap_size; int nresized; int init_seen;
  uint64_t live_events;
  int mut_added, mut_removed, mut_stopping, mut_stopped, mut_restarted, cause_gc;
  struct { int id, live, stopping, stopped; } mdata[16]; int nmdata;
  uint64_t fin_cb; uint64_t fin_cb_calls; uint64_t fin_expected_popped;
  void (*on_gc)(int kind);
  void (*on_stopped)(void);
  void (*on_restart)(void);
  uint64_t stamp; uint64_t verified_objects;
  int allow_minor_sync;
  uint64_t allocated_bytes, allocated_ub, allocated_small, allocated_at_gc, allocated_ub_at_gc;
  int path[HH_MAXM], compare_paths;   // how each mutator calls: 0 inline, 1 out of line, 2 from the attributes
  int no_model_gc;          // harness does not keep the shadow in sync during GCs
  struct gc_basic_stats *stats;
  int policy; double mult; size_t heap0, max; uint64_t streak_allocs; int streak; size_t last_live;   // heap size policy
};
extern struct hh_state *H;
extern uint8_t *hh_reach;    // last computed reachability, by id

// instrumented calls (hh_api.c)
void *ha_alloc(struct gc_mutator *m, size_t size, int kind);
void *ha_alloc_fast(struct gc_mutator *m, size_t size, int kind);
void ha_store(struct gc_mutator *m, void *obj, size_t size, void **slot, void *val);
void ha_store_slow(struct gc_mutator *m, void *obj, size_t size, void **slot, void *val);
void ha_store_nobarrier(void **slot, void *val);
int ha_is_old(struct gc_mutator *m, void *obj, size_t size);
int ha_is_old_slow(struct gc_mutator *m, void *obj);
int ha_barrier_fast(struct gc_mutator *m, void *obj, size_t size, void **slot, void *val);
void ha_safepoint(struct gc_mutator *m);
int ha_should_stop(struct gc_mutator *m);
void *ha_alloc_slow(struct gc_mutator *m, size_t size, int kind);
void ha_safepoint_slow(struct gc_mutator *m);
void *ja_alloc(struct gc_mutator *m, size_t size, int kind);
int ja_is_old(struct gc_mutator *m, void *obj, size_t size);
int ja_barrier_fast(struct gc_mutator *m, void *obj, size_t size, void **slot);
void ja_store(struct gc_mutator *m, void *obj, size_t size, void **slot, void *val);
void ja_safepoint(struct gc_mutator *m);

// set-up
struct hh_config { size_t heap, max; int policy; double mult, expansiveness; int par; int nroots; };
void hh_setup(struct hh_config *c);
int hh_setup_try(struct hh_config *c);
int hh_add_mutator(void);                 // for the calling thread
void hh_remove_mutator(int m);
// operations; each keeps the shadow in step
int hh_alloc(int m, int kind, size_t size, int nf, int slot, int ak);   // returns id
int hh_node(int m, int nf, size_t size, int slot);
int hh_leaf(int m, size_t size, int slot);
int hh_raw(int m, size_t size, int slot);
void *hh_addr(int m, int slot);
void hh_store(int m, int slot, int field, int vslot);     // vslot -1: null; -2..: immediate
void hh_store_mode(int m, int slot, int field, int vslot, int mode);
void hh_load(int m, int dst, int slot, int field);        // root[dst] = root[slot]->f[field]
void hh_root(int m, int dst, int src);                    // copy root; src -1 clears
void hh_heap_root(int dst, int m, int src);
int hh_ephemeron(int m, int slot, int kslot, int vslot);
void hh_chain_push(int m, int chain_slot, int eslot);
void hh_mark_dead(int m, int slot);
int hh_finalizer(int m, int oslot, int cslot, int prio);  // attaches; not kept in a root
int hh_pop(int m, int slot);                              // 0 if none; else finalizer id
void hh_drain(int m, int slot);
void hh_pin(int m, int slot);
void hh_collect(int m, int kind);
void hh_safepoint(int m);
int hh_is_old(int m, int slot);
void hh_extern(int m, int slot, int nf);                  // new external object in root
void hh_cons_word(uintptr_t *w, int m, int slot, uintptr_t off);
void hh_cons_clear(int i);
// checking
void hh_verify(void);
void hh_check_weak(void);
void hh_check_events(void);
void hh_check_counter(int upper);
void hh_check_fired(void);
void hh_reachability(uint8_t *r, int with_att_objs);
size_t hh_live_bytes(void);
uint64_t hh_state_hash(void);
void hh_seen(void);
int hh_rawcons(int m, size_t size, int nf, int slot);
void hh_garbage(int m, size_t size, size_t total, int ak, int nf);   // allocate unreferenced objects
const char *hh_kind_name(int k);
#endif
