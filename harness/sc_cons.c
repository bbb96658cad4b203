// Objects that only a conservatively scanned word refers to, and words that refer to
// nothing: every kind of object x age x offset into it x place of the word x sequence
// of collections.
//   --opt set=0: a word in the frame that collects, in a global, or in a register
//   --opt set=1: a word on the stack of another thread, which is outside or stopped
//   --opt set=2: words that are no references: around objects, blocks, slabs, spaces
//   --opt seq=LETTERS --opt depth=N
#include "ops.h"
#include <sys/mman.h>
#include <pthread.h>
const char *mc_harness_name = "cons-" HH_CONFIG;
#define NOINLINE __attribute__((noinline))
static volatile uintptr_t in_bss;
static volatile uintptr_t in_data = 1;
static const char *seq; static int depth;

enum { V_SMALL, V_ODD, V_MED, V_BIG, V_LARGE, V_LARGER, V_LEAF, V_RAW, V_CONS, NV };
static int victims(void) { return GC_CONSERVATIVE_TRACE ? NV : V_CONS; }
static NOINLINE void make(int kind, int m) {
  switch (kind) {
  case V_SMALL: hh_node(m, 2, 24, 0); break;
  case V_ODD: hh_node(m, 2, 200, 0); break;
  case V_MED: hh_node(m, 2, 2048, 0); break;
  case V_BIG: hh_node(m, 2, 8192, 0); break;
  case V_LARGE: hh_node(m, 2, 12000, 0); break;
  case V_LARGER: hh_node(m, 2, 200000, 0); break;
  case V_LEAF: hh_leaf(m, 72, 0); break;
  case V_RAW: hh_raw(m, 56, 0); break;
  case V_CONS: hh_rawcons(m, 40, 2, 0); break;
  }
  if (node(m, 0) || cons(m, 0)) { hh_node(m, 2, 24, 1); hh_store(m, 0, 0, 1); hh_node(m, 2, 2000, 2); hh_store(m, 1, 1, 2); }
  for (int i = 1; i < 4; i++) hh_root(m, i, -1);
  // neighbours that die, and some that live
  hh_garbage(m, 24, 4096, GC_ALLOCATION_TAGGED, 0);
  hh_node(m, 1, 24, 1); hh_node(m, 1, 2048, 2);
}
// forget what earlier calls left on the stack
static NOINLINE void scrub(void) { volatile char b[24576]; for (size_t i = 0; i < sizeof b; i++) b[i] = 0; }
static NOINLINE void hide(int m) { hh_root(m, 0, -1); }

static NOINLINE int step(int m) {
  char one[2] = { seq[mc_choose(strlen(seq))], 0 };
  mc_log("%s", one);
  if (one[0] != '-') run(m, one);
  return 0;
}

// collect with a word in one callee-saved register only
#define VIA(R) \
  __asm__ volatile("lea -248(%%rsp), %%rsp\n\tpush %%" R "\n\tmov (%%rdx), %%" R "\n\txor %%edx, %%edx\n\tcall *%%rax\n\t" \
                   "mov %%" R ", %%rax\n\tpop %%" R "\n\tlea 248(%%rsp), %%rsp" \
                   : "+a"(fn), "+D"(mut), "+S"(kind), "+d"(src) \
                   : : "rcx", "r8", "r9", "r10", "r11", "memory", "cc", \
                     "xmm0", "xmm1", "xmm2", "xmm3", "xmm4", "xmm5", "xmm6", "xmm7", \
                     "xmm8", "xmm9", "xmm10", "xmm11", "xmm12", "xmm13", "xmm14", "xmm15")
static NOINLINE void via_register(int reg, uintptr_t src, uintptr_t mut, uintptr_t kind) {
  uintptr_t fn = (uintptr_t)gc_collect, want = *(uintptr_t *)src ^ 0x5555;
  switch (reg) {
  case 0: VIA("rbx"); break;
  case 1: VIA("rbp"); break;
  case 2: VIA("r12"); break;
  case 3: VIA("r13"); break;
  case 4: VIA("r14"); break;
  case 5: VIA("r15"); break;
  }
  if ((fn ^ 0x5555) != want) mc_fail("register changed across gc_collect");
}
static size_t offset(size_t size) {
  size_t offs[] = { 0, 1, 8, 15, 16, 17, size / 2, size - 1 };
  if (mc_opt("set", 0) == 1) return mc_choose(2) ? size / 2 : 0;
  return offs[mc_choose(sizeof offs / sizeof *offs)];
}
// the word has to be out of sight of the collector until it is put in place
static uintptr_t *hidden;
static uintptr_t gone, tag; static size_t size_was;
static NOINLINE void take(int m, size_t off) { hh_cons_word(hidden, m, 0, off); }
static NOINLINE void frame(int m, int place) {
  volatile uintptr_t w[3] = { 0, 0, 0 };
  volatile uintptr_t *at = place == 0 ? &w[mc_choose(2)] : place == 1 ? &in_bss : &in_data;
  *at = *hidden;
  scrub();
  for (int i = 0; i < depth; i++) {
    step(m);
    if (*at != *hidden) mc_fail("a conservatively scanned word was modified: %#lx, was %#lx", *at, *hidden);
  }
  *at = 0;
}

// set 1
static pthread_mutex_t lk = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static int phase;
static void set_phase(int p) { pthread_mutex_lock(&lk); phase = p; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&lk); }
static void *wait_phase(void *arg) {
  pthread_mutex_lock(&lk);
  while (phase < (int)(uintptr_t)arg) pthread_cond_wait(&cv, &lk);
  pthread_mutex_unlock(&lk);
  return NULL;
}
static int how;
static NOINLINE void holder(int m) {
  volatile uintptr_t w[2] = { 0, 0 };
  w[0] = *hidden;
  set_phase(1);
  if (how == 0) gc_call_without_gc(H->m[m].mut, wait_phase, (void *)2);
  else {
    gc_call_without_gc(H->m[m].mut, wait_phase, (void *)2);
    set_phase(3);
    if (how == 1) hh_collect(m, GC_COLLECTION_MAJOR);
    else hh_garbage(m, 2000, heap_size / 2, GC_ALLOCATION_TAGGED, 0);
    hh_safepoint(m);
    gc_call_without_gc(H->m[m].mut, wait_phase, (void *)4);
  }
  if (w[0] != *hidden) mc_fail("a conservatively scanned word was modified: %#lx, was %#lx", w[0], *hidden);
}
static void *other(void *arg) { (void)arg; int m = hh_add_mutator(); holder(m); hh_verify(); hh_remove_mutator(m); return NULL; }
static void *joined(void *arg) { pthread_join(*(pthread_t *)arg, NULL); return NULL; }

// set 2
static NOINLINE uintptr_t junk(void) {
  // two dead addresses, five live ones and the ends of what contains them
  static const int kinds[] = { V_SMALL, V_MED, V_BIG, V_LARGE, V_LARGER, V_RAW, V_LEAF };
  int k = kinds[mc_choose(7)];
  make(k, 0);
  uintptr_t a = (uintptr_t)hh_addr(0, 0), n = H->o[H->m[0].sh[0]].size;
  switch (mc_choose(3)) {
  case 0: break;                              // stays alive
  case 1: hide(0); break;                     // about to die
  case 2: hide(0); hh_collect(0, GC_COLLECTION_COMPACTING); hh_collect(0, GC_COLLECTION_MAJOR); break;
  }
  uintptr_t block = 65536, slab = 4 << 20, page = 4096, an = (n + 15) & ~15ul, al = (a + n + page - 1) & -page;
  uintptr_t c[] = { a, a - 1, a - 8, a - 16, a + 3, a + 16, a + n - 1, a + n, a + an - 1, a + an, a + an + 16, al - 1, al, al + 8, al + page,
    a & -page, (a & -page) - 8, (a & -page) + page, a & -block, (a & -block) - 16, (a & -block) + block, (a & -block) + block - 16,
    a & -slab, (a & -slab) - 8, (a & -slab) + 8, (a & -slab) + 64, (a & -slab) + block * 4, (a & -slab) + block * 4 - 8, (a & -slab) + slab, (a & -slab) + slab - 8, (a & -slab) + slab - block,
    a | 1ul << 63, a | 1ul << 47, a << 1, a + (1ul << 40), 0, 1, 7, 8, 16, page, -1ul, -8ul, -16ul, 1ul << 47, (1ul << 47) - 8, 0x300000000000ul };
  uintptr_t w = c[mc_choose(sizeof c / sizeof *c)];
  mc_log("junk %#lx (object %#lx size %lu) ", w, a, n);
  return w;
}
static NOINLINE void with_junk(uintptr_t v) {
  volatile uintptr_t w[3] = { 0, v, 0 };
  in_bss = v; in_data = v;
#if GC_CONSERVATIVE_TRACE
  // ... and within objects
  uintptr_t *p = ha_alloc(H->m[0].mut, 32, GC_ALLOCATION_UNTAGGED_CONSERVATIVE); p[0] = p[1] = p[3] = v; p[2] = (uintptr_t)p;
  w[0] = (uintptr_t)p;
#endif
  for (int i = 0; i < depth; i++) step(0);
  if (w[1] != v || in_bss != v || in_data != v) mc_fail("a conservatively scanned word was modified: %#lx %#lx %#lx, was %#lx", w[1], in_bss, in_data, v);
#if GC_CONSERVATIVE_TRACE
  p = (void *)w[0];
  if (p[0] != v || p[1] != v || p[3] != v || p[2] != w[0]) mc_fail("a conservatively traced object was changed");
#endif
}

void mc_harness(void) {
  ops_opts();
  int set = mc_opt("set", 0);
  seq = mc_optstr("seq", "123gM"); depth = mc_opt("depth", 2);
  struct hh_config c = { .heap = heap_size, .par = mc_opt("par", 1) };
  if (set == 1) mc_sched_enable(0);
  hh_setup(&c);
  // no word in sight: it must be out of the collector's reach
  hidden = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (mc_opt("frag", 0)) { hh_garbage(0, 200, heap_size * 2 / 3, GC_ALLOCATION_TAGGED, 0); hh_collect(0, 2); }
  if (set == 2) {
    uintptr_t v = junk();
    with_junk(v);
  } else {
    int few = mc_opt("few", 0), kind = few ? (mc_choose(2) ? V_LARGE : V_ODD) : (int)mc_choose(victims()), only = mc_opt("place", -1);
    make(kind, 0);
    const char *ages[] = { "", "5", "6", "7", "67" };
    run(0, ages[few ? 2 : set == 1 ? mc_choose(2) * 4 : mc_choose(5)]);
    int place = set == 1 ? 0 : only >= 0 ? only : mc_choose(5);
    size_t size = H->o[H->m[0].sh[0]].size, off = (place == 0 || place == 3) ? offset(size) : 0;
    if (off >= size) off = 0;
    mc_log("kind %d place %d off %zu ", kind, place, off);
    size_was = size; tag = *(uintptr_t *)hh_addr(0, 0);
    take(0, off);
    if (set == 1) {
      pthread_t th;
      how = few ? 1 + mc_choose(2) : mc_choose(3);
      pthread_create(&th, NULL, other, NULL);
      gc_call_without_gc(H->m[0].mut, wait_phase, (void *)1);
      hide(0); scrub();
      if (how) {
        mc_quiesce();
        mc_sched_enable(1);
        set_phase(2);
        gc_call_without_gc(H->m[0].mut, wait_phase, (void *)3);
        hh_collect(0, GC_COLLECTION_MAJOR);
        hh_verify();
        mc_sched_enable(0);
      }
      for (int i = 0; i < depth; i++) step(0);
      set_phase(4);
      gc_call_without_gc(H->m[0].mut, joined, &th);
    } else {
      hide(0); scrub();
      if (place == 4) gone = ~(H->cw[0].expect - off), H->cw[0].w = NULL, *hidden = 0, H->cw[0].expect = 0;
      else if (place < 3) frame(0, place);
      else {
        int reg = mc_choose(6);
        mc_log("reg %d ", reg);
        for (int i = 0; i < depth; i++) {
          static const int kinds[] = { GC_COLLECTION_MINOR, GC_COLLECTION_MAJOR, GC_COLLECTION_COMPACTING };
          via_register(reg, (uintptr_t)hidden, (uintptr_t)H->m[0].mut, kinds[mc_choose(3)]);
          hh_verify(); hh_seen();
        }
      }
    }
    hh_cons_clear(0);
  }
  scrub();
  run(0, "3M2gM1");
  // control: without a word, objects are reclaimed
  if (gone && size_was <= 8192 && *(uintptr_t *)~gone != tag) mc_count(9);
  hh_check_events();
  mc_outcome(hh_state_hash());
}
