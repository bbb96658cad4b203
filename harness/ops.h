// Single-letter heap operations, applied by mutator m.
#include "hh.h"
static size_t heap_size;
static int node(int m, int s) { int id = H->m[m].sh[s]; return id > 0 && H->o[id].kind == MO_NODE && H->o[id].nf > 0; }
static int have(int m, int s) { return H->m[m].sh[s] > 0; }
static int eph(int m, int s) { int id = H->m[m].sh[s]; return id > 0 && H->o[id].kind == MO_EPH; }
static int cons(int m, int s) { int id = H->m[m].sh[s]; return id > 0 && H->o[id].kind == 0 && H->o[id].nf > 0; }
static int small(int m, int s) { int id = H->m[m].sh[s]; return id > 0 && H->o[id].size <= 8192; }

static size_t opt_small, opt_med, opt_large; static int opt_nf;

#define ROOTS(m, s) (H->m[m].roots->slot[s])
static int outside_ran;
static void *outside(void *arg) { outside_ran++; mc_point(); mc_point(); return arg; }
static int op(int m, int c, int apply) {
#define ON(cond, act) do { if (!(cond)) return 0; if (apply) { act; } return 1; } while (0)
  switch (c) {
  case 'a': ON(1, hh_node(m, opt_nf, opt_small, 0));
  case 'b': ON(1, hh_node(m, opt_nf, opt_small, 1));
  case 'm': ON(1, hh_node(m, opt_nf, opt_med, 0));
  case 'n': ON(1, hh_node(m, opt_nf, opt_med, 1));
  case 'l': ON(1, hh_node(m, opt_nf, opt_large, 0));
  case 'k': ON(1, hh_node(m, opt_nf, opt_large, 1));
  case 'p': ON(1, hh_leaf(m, opt_small, 1));
  case 'Q': ON(1, hh_leaf(m, opt_med + 17, 1));
  case 'P': ON(1, hh_leaf(m, opt_large + 9, 1));
#if HH_COLLECTOR_MMC
  case 'r': ON(1, hh_raw(m, opt_small + 8, 1));
  case 'j': ON(1, hh_raw(m, opt_large, 1));
#if GC_CONSERVATIVE_TRACE
  case 'c': ON(1, hh_rawcons(m, 40, 2, 0));
  case 'C': ON(1, hh_rawcons(m, opt_large, 2, 1));
#endif
  case 'q': ON(have(m, 0) && !H->o[H->m[m].sh[0]].ext && !H->o[H->m[m].sh[0]].pinned, hh_pin(m, 0));
#endif
  case 's': ON((node(m, 0) || cons(m, 0)) && have(m, 1), hh_store(m, 0, 0, 1));
  case 't': ON((node(m, 1) || cons(m, 1)) && have(m, 0), hh_store(m, 1, 0, 0));
  case 'S': ON(node(m, 0) && have(m, 1), hh_store_mode(m, 0, 1, 1, 1));
  case 'u': ON(node(m, 0), hh_store(m, 0, 1, 0));
  case 'z': ON(node(m, 0), hh_store(m, 0, 0, -1));
  case 'i': ON(node(m, 0), hh_store(m, 0, 0, -3));
  case 'd': ON(node(m, 0) || cons(m, 0), hh_load(m, 0, 0, 0));
  case 'e': ON(node(m, 0) || cons(m, 0), hh_load(m, 1, 0, 0));
  case 'x': ON(H->m[m].sh[0], hh_root(m, 0, -1));
  case 'y': ON(H->m[m].sh[1], hh_root(m, 1, -1));
  case 'Y': ON(H->m[m].sh[2], hh_root(m, 2, -1));
  case 'W': ON(H->m[m].sh[3], hh_root(m, 3, -1));
  case 'w': ON(H->m[m].sh[0] || H->m[m].sh[1], (hh_root(m, 11, 0), hh_root(m, 0, 1), hh_root(m, 1, 11), hh_root(m, 11, -1)));
  case 'h': ON(have(m, 0), hh_heap_root(0, m, 0));
  case 'H': ON(H->hsh[0], hh_heap_root(0, m, -1));
  case 'B': ON(H->hsh[0], (hh_root(m, 1, -1), H->m[m].roots->slot[1] = H->hroots->slot[0], H->m[m].sh[1] = H->hsh[0]));
  case '0': ON(1, (hh_collect(m, GC_COLLECTION_ANY), hh_verify()));
  case '1': ON(1, (hh_collect(m, GC_COLLECTION_MINOR), hh_verify()));
  case '2': ON(1, (hh_collect(m, GC_COLLECTION_MAJOR), hh_verify()));
  case '3': ON(1, (hh_collect(m, GC_COLLECTION_COMPACTING), hh_verify()));
  case 'g': ON(1, (hh_garbage(m, 32, heap_size / 4, GC_ALLOCATION_TAGGED, 1), hh_verify()));
  case 'M': ON(1, (hh_garbage(m, 3000, heap_size / 2, GC_ALLOCATION_TAGGED_POINTERLESS, 0), hh_verify()));
  case 'G': ON(1, (hh_garbage(m, 60000, heap_size / 2, GC_ALLOCATION_TAGGED, 1), hh_verify()));
  case 'E': ON(have(m, 0), hh_ephemeron(m, 2, 0, H->m[m].sh[1] > 0 ? 1 : -1));
  case 'N': ON(have(m, 1), hh_ephemeron(m, 3, 1, H->m[m].sh[0] > 0 ? 0 : -1));
  case 'R': ON(eph(m, 2) && eph(m, 3) && H->m[m].sh[2] < H->m[m].sh[3] && !H->o[H->m[m].sh[3]].chain && !H->o[H->m[m].sh[3]].chained,
               (H->o[H->m[m].sh[3]].chained = 1, hh_chain_push(m, 2, 3)));
  case 'T': ON(have(m, 1) && eph(m, 2) && node(m, 0), hh_store(m, 0, 1, 2));
  case 'U': ON(eph(m, 2) && !H->o[H->m[m].sh[2]].dead, hh_mark_dead(m, 2));
  case 'f': ON(have(m, 0) && !H->o[H->m[m].sh[0]].ext, hh_finalizer(m, 0, H->m[m].sh[1] > 0 ? 1 : -1, 0));
  case 'v': ON(have(m, 0) && !H->o[H->m[m].sh[0]].ext, hh_finalizer(m, 0, -1, 1));
  case 'J': ON(have(m, 1) && !H->o[H->m[m].sh[1]].ext, hh_finalizer(m, 1, H->m[m].sh[0] > 0 ? 0 : -1, 2));
  case 'o': ON(1, hh_pop(m, 4));
  case 'O': ON(1, hh_drain(m, 5));
  case 'K': ON(H->m[m].sh[4] > 0, hh_root(m, 4, -1));
#if HH_COLLECTOR_MMC || HH_COLLECTOR_PCC || HH_COLLECTOR_SEMI
  case 'X': ON(!H->ext || H->ext->n < 3, hh_extern(m, 0, 2));
#endif
  case 'I': ON(have(m, 0) && !H->o[H->m[m].sh[0]].ext, hh_is_old(m, 0));
  // store slot 1 into every field of slot 0 (more than one remembered-set buffer's worth when nf is large)
  case '=': ON((node(m, 0) || cons(m, 0)) && have(m, 1), for (int i = 0; i < H->o[H->m[m].sh[0]].nf; i++) hh_store(m, 0, i, 1));
  // for several mutators
  case 'D': ON(H->hsh[0], (ROOTS(m, 0) = H->hroots->slot[0], H->m[m].sh[0] = H->hsh[0]));
  case 'A': ON(H->hsh[1], (ROOTS(m, 1) = H->hroots->slot[1], H->m[m].sh[1] = H->hsh[1]));
  case '!': ON(have(m, 1), hh_heap_root(1, m, 1));
  case '@': ON(have(m, 1), hh_heap_root(2 + m, m, 1));
  case 'V': ON((node(m, 0) || cons(m, 0)) && have(m, 1) && m < H->o[H->m[m].sh[0]].nf, hh_store(m, 0, m, 1));
  case 'F': ON((node(m, 0) || cons(m, 0)) && m < H->o[H->m[m].sh[0]].nf, hh_load(m, 1, 0, m));
  case ';': ON(1, hh_safepoint(m));
  case '_': ON(1, gc_call_without_gc(H->m[m].mut, outside, (void *)(uintptr_t)m));
  case '4': ON(1, hh_collect(m, GC_COLLECTION_ANY));
  case '5': ON(1, hh_collect(m, GC_COLLECTION_MINOR));
  case '6': ON(1, hh_collect(m, GC_COLLECTION_MAJOR));
  case '7': ON(1, hh_collect(m, GC_COLLECTION_COMPACTING));
  case '^': ON(1, (mc_tick(), hh_verify()));      // a second passes
  default: return 0;
  }
}


static void run(int m, const char *s) {
  for (; *s; s++) {
    if (H->in_gc) mc_fail("mutator %d runs although the world is stopped", m);
    if (op(m, *s, 1)) {
      if (H->in_gc) mc_fail("mutator %d runs although the world is stopped", m);
      hh_verify(); hh_seen();
    }
  }
}
static void ops_opts(void) {
  heap_size = mc_opt("heap", 4 << 20);
  opt_small = mc_opt("small", 24); opt_med = mc_opt("med", 2048); opt_large = mc_opt("large", 12000);
  opt_nf = mc_opt("nf", 2);
}
