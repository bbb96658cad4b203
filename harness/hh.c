// Shadow-heap library: see hh.h.  Not instrumented: nothing in here is a
// scheduling point, so each operation and its bookkeeping are one step.
#define _GNU_SOURCE
#include "hh.h"
#include <sys/mman.h>
#include <unistd.h>
void *__real_mmap(void *, size_t, int, int, int, off_t);

struct hh_state *H;
uint8_t *hh_reach;
static uint8_t *R_min, *R_max, *R_full;
static struct vis { uintptr_t lo, hi; int id; } *vis; static int nvis;
static int *stk;
static uint64_t *visited_words;

const char *hh_kind_name(int k) {
  static const char *n[] = { "any", "minor", "major", "compacting" };
  return n[k & 3];
}

static uint64_t pat(int id, size_t i) {
  // odd, so never an aligned pointer; small, so never an address
  return ((uint64_t)id << 32 | (i & 0xffffff) << 4 | 5) & 0x0000ffffffffffffull & 0xffffffffffull;
}
#define HH_AREA 262144u
#define IMM(v) ((void *)(uintptr_t)((-(v)) * 8 + 1))     // v < 0

// -------------------------------------------------------------------- events
static void ev_fail(const char *m) { if (!H->ev_bad) { H->ev_bad = 1; H->ev_msg = m; mc_fail("event order: %s (gc %lu)", m, (unsigned long)H->gcs); } }
static void ev_log(int who, int code, uint64_t arg);
static int live_in_gc;
enum { E_IDLE, E_REQ, E_WAIT, E_STOPPED, E_PREP, E_ROOTS, E_HEAP, E_EPH, E_FIN };
static void ev_init(void *d, size_t size) {
  ev_log(0, 20, size);
  if (d != H) ev_fail("init: wrong data");
  if (H->init_seen++) ev_fail("init reported twice");
  H->heap_size = size;
}
#define STEP(from, to, name) do { ev_log(0, to, 0); if (d != H) ev_fail(name ": wrong data"); if (H->ev_state != from) ev_fail(name " out of order"); H->ev_state = to; } while (0)
static void ev_requesting(void *d) { STEP(E_IDLE, E_REQ, "requesting_stop"); }
static void ev_waiting(void *d) { STEP(E_REQ, E_WAIT, "waiting_for_stop"); }
static void ev_stopped(void *d) {
  STEP(E_WAIT, E_STOPPED, "mutators_stopped"); H->in_gc = 1;
  if (H->on_stopped) H->on_stopped();
}
static void ev_prepare(void *d, enum gc_collection_kind k) {
  STEP(E_STOPPED, E_PREP, "prepare_gc");
  H->last_kind = k; mc_count(k); ev_log(0, 21, k); live_in_gc = 0;
  if (k == GC_COLLECTION_ANY || k > GC_COLLECTION_COMPACTING) ev_fail("prepare_gc: collection kind not definite");
  if (k == GC_COLLECTION_MINOR) { H->minors++; if (!GC_GENERATIONAL) ev_fail("minor collection in a collector without generations"); }
  else H->majors++;
}
static void ev_roots(void *d) { STEP(E_PREP, E_ROOTS, "roots_traced"); }
static void ev_heap(void *d) { STEP(E_ROOTS, E_HEAP, "heap_traced"); }
static void ev_eph(void *d) { STEP(E_HEAP, E_EPH, "ephemerons_traced"); }
static void ev_fin(void *d) { STEP(E_EPH, E_FIN, "finalizers_traced"); }
static void model_gc(int kind);
static void ev_restart(void *d) {
  STEP(E_FIN, E_IDLE, "restarting_mutators");
  if (live_in_gc != 1) mc_fail("event order: live data size reported %d times in a collection", live_in_gc);
  if (H->on_restart) H->on_restart();
  H->in_gc = 0;
  H->gcs++;
  H->allocated_at_gc = H->allocated_bytes; H->allocated_ub_at_gc = H->allocated_ub;
  if (H->allocated_bytes != H->streak_allocs) { H->streak_allocs = H->allocated_bytes; H->streak = 0; }
  H->streak = H->last_kind == GC_COLLECTION_MINOR ? 0 : H->streak + 1;
  if (!H->no_model_gc) model_gc(H->last_kind);
  if (H->on_gc) H->on_gc(H->last_kind);
}
static void *ev_added(void *d) {
  if (d != H) ev_fail("mutator_added: wrong data");
  if (!H->init_seen) ev_fail("mutator_added before init");
  H->mut_added++; ev_log(0, 30, 0);
  int i = H->nmdata++; if (i >= 16) i = 15;
  H->mdata[i].id = i; H->mdata[i].live = 1; H->mdata[i].stopping = H->mdata[i].stopped = 0;
  return &H->mdata[i];
}
#define MD(code) typeof(&H->mdata[0]) m = d; ev_log(0, code, m - H->mdata); if (m < H->mdata || m >= H->mdata + 16 || !m->live) ev_fail("mutator event with wrong data")
static void ev_cause(void *d) { MD(31); H->cause_gc++; if (H->ev_state != E_IDLE) ev_fail("mutator_cause_gc during a collection"); }
static void ev_mstopping(void *d) { MD(32); if (m->stopping) ev_fail("mutator_stopping twice"); m->stopping = 1; H->mut_stopping++; if (H->in_gc) ev_fail("mutator stopping after mutators were reported stopped"); }
static void ev_mstopped(void *d) { MD(33); if (!m->stopping || m->stopped) ev_fail("mutator_stopped without stopping"); m->stopped = 1; H->mut_stopped++; if (H->in_gc) ev_fail("mutator stopped after mutators were reported stopped"); }
static void ev_mrestarted(void *d) { MD(34); if (!m->stopped) ev_fail("mutator_restarted without stopped"); m->stopping = m->stopped = 0; H->mut_restarted++; if (H->in_gc) ev_fail("mutator restarted during a collection"); }
static void ev_mremoved(void *d) { MD(35); if (m->stopping) ev_fail("mutator removed while stopping"); m->live = 0; H->mut_removed++; if (H->in_gc) ev_fail("mutator removed during a collection"); }
static void ev_resized(void *d, size_t s) { mc_count(4); ev_log(0, 22, s); if (d != H) ev_fail("heap_resized: wrong data");
  if (H->policy == GC_HEAP_SIZE_FIXED) mc_fail("heap size policy: a heap of fixed size %zu resized to %zu", H->heap_size, s);
  if (H->policy == GC_HEAP_SIZE_GROWABLE && s < H->heap_size) mc_fail("heap size policy: a growable heap shrank from %zu to %zu", H->heap_size, s);
  if (s == H->heap_size) mc_fail("heap size policy: heap_resized without a change, size %zu", s);
  if (!s || s > (size_t)1 << 40) mc_fail("heap size policy: heap resized to %zu", s);
  if (H->max && s > H->max) mc_fail("maximum heap size: heap resized to %zu, maximum %zu", s, H->max);
  H->heap_size = s; H->nresized++; }
static void ev_live(void *d, size_t s) {
  if (d != H) ev_fail("live_data_size: wrong data");
  ev_log(0, 23, s);
  if (H->ev_state < E_PREP) ev_fail("live_data_size outside a collection");
  live_in_gc++;
  H->live_size = s; H->live_events++;
}
static const struct gc_event_listener main_listener = {
  ev_init, ev_requesting, ev_waiting, ev_stopped, ev_prepare, ev_roots, ev_heap, ev_eph, ev_fin, ev_restart,
  ev_added, ev_cause, ev_mstopping, ev_mstopped, ev_mrestarted, ev_mremoved, ev_resized, ev_live };
#if HH_CHAIN
// The collector is given a chain: our listener, then the bundled statistics, then
// a recorder.  The recorder must see exactly what our listener saw.
#include "gc-event-listener-chain.h"
#include "gc-basic-stats.h"
#include "gc-null-event-listener.h"
#define EVLOG 65536
static struct { int n; struct { int code; uint64_t arg; } e[EVLOG]; } evlogs[2];
static struct recorder { int added, bad; struct rmut { int live; } m[16]; } rec;
static struct gc_basic_stats stats;
static void ev_log(int who, int code, uint64_t arg) {
  if (evlogs[who].n < EVLOG) { evlogs[who].e[evlogs[who].n].code = code; evlogs[who].e[evlogs[who].n].arg = arg; }
  evlogs[who].n++;
}
#define RD if (d != &rec) rec.bad = 1
static void rc_init(void *d, size_t s) { RD; ev_log(1, 20, s); }
#define RC(name, code) static void rc_##name(void *d) { RD; ev_log(1, code, 0); }
RC(req, E_REQ) RC(wait, E_WAIT) RC(stopped, E_STOPPED) RC(roots, E_ROOTS) RC(heap, E_HEAP) RC(eph, E_EPH) RC(fin, E_FIN) RC(restart, E_IDLE)
static void rc_prepare(void *d, enum gc_collection_kind k) { RD; ev_log(1, E_PREP, 0); ev_log(1, 21, k); }
static void *rc_added(void *d) { RD; ev_log(1, 30, 0); int i = rec.added++; if (i > 15) i = 15; rec.m[i].live = 1; return &rec.m[i]; }
#define RM(name, code) static void rc_##name(void *d) { struct rmut *m = d; if (m < rec.m || m >= rec.m + 16) { rec.bad = 2; return; } ev_log(1, code, m - rec.m); }
RM(cause, 31) RM(mstopping, 32) RM(mstopped, 33) RM(mrestarted, 34) RM(mremoved, 35)
static void rc_resized(void *d, size_t s) { RD; ev_log(1, 22, s); }
static void rc_live(void *d, size_t s) { RD; ev_log(1, 23, s); }
static const struct gc_event_listener rec_listener = {
  rc_init, rc_req, rc_wait, rc_stopped, rc_prepare, rc_roots, rc_heap, rc_eph, rc_fin, rc_restart,
  rc_added, rc_cause, rc_mstopping, rc_mstopped, rc_mrestarted, rc_mremoved, rc_resized, rc_live };
static struct gc_event_listener_chain chain, chain2, chain3;
#define HH_LISTENER GC_EVENT_LISTENER_CHAIN
static void *hh_listener_data(void) {
  chain3 = GC_EVENT_LISTENER_CHAIN_DATA(GC_NULL_EVENT_LISTENER, NULL, rec_listener, &rec);
  chain2 = GC_EVENT_LISTENER_CHAIN_DATA(GC_BASIC_STATS, &stats, GC_EVENT_LISTENER_CHAIN, &chain3);
  chain = GC_EVENT_LISTENER_CHAIN_DATA(main_listener, H, GC_EVENT_LISTENER_CHAIN, &chain2);
  return &chain;
}
static void check_chain(void) {
  if (rec.bad) mc_fail("chained listener: second listener called with the wrong data (%d)", rec.bad);
  int n = evlogs[0].n < EVLOG ? evlogs[0].n : EVLOG;
  size_t mh = 0, ml = 0;
  for (int i = 0; i < n; i++) {
    int c = evlogs[0].e[i].code; uint64_t a = evlogs[0].e[i].arg;
    if (i >= evlogs[1].n) mc_fail("chained listener: event %d (code %d) reached the first listener only", i, c);
    if (evlogs[1].e[i].code != c || evlogs[1].e[i].arg != a)
      mc_fail("chained listener: event %d is (%d, %lu) for the first listener but (%d, %lu) for the second", i, c, (unsigned long)a, evlogs[1].e[i].code, (unsigned long)evlogs[1].e[i].arg);
    if ((c == 20 || c == 22) && a > mh) mh = a;
    if (c == 23 && a > ml) ml = a;
  }
  if (evlogs[1].n != evlogs[0].n) mc_fail("chained listener: %d events for the first listener, %d for the second", evlogs[0].n, evlogs[1].n);
#define EQ(field, want) if (stats.field != (want)) mc_fail("statistics: " #field " is %lu, should be %lu", (unsigned long)stats.field, (unsigned long)(want))
  EQ(minor_collection_count, H->minors);
  EQ(major_collection_count, H->majors);
  EQ(heap_size, H->heap_size); EQ(max_heap_size, mh);
  EQ(live_data_size, H->live_size); EQ(max_live_data_size, ml);
  if (gc_latency_count(&stats.pause_times) != H->gcs) mc_fail("statistics: %lu pauses recorded for %lu collections", (unsigned long)gc_latency_count(&stats.pause_times), (unsigned long)H->gcs);
}
#else
static void ev_log(int who, int code, uint64_t arg) {}
static void check_chain(void) {}
#define HH_LISTENER main_listener
static void *hh_listener_data(void) { return H; }
#endif
static void fin_callback(struct gc_heap *heap, size_t count) {
  H->fin_cb += count; H->fin_cb_calls++;
  if (heap != H->heap) mc_fail("finalizer callback: wrong heap");
  if (!count) mc_fail("finalizer callback: count is zero");
  if (H->ev_state == E_IDLE) mc_fail("finalizer callback outside a collection");
}

// -------------------------------------------------------------------- set-up
static void *big(size_t n) {
  void *p = __real_mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("hh"); _exit(3); }
  return p;
}
#define FPOOL 40000
static void hh_mem(void) {
  H = big(sizeof *H);
  H->fpool = big(FPOOL * sizeof(int));
  hh_reach = big(HH_MAXO); R_min = big(HH_MAXO); R_max = big(HH_MAXO); R_full = big(HH_MAXO);
  vis = big(sizeof *vis * (HH_MAXO + 8)); stk = big(sizeof(int) * HH_MAXO * 2);
  H->no = 1;
  H->hroots = big(4096);
  for (int m = 0; m < HH_MAXM; m++) H->m[m].roots = big(4096);
}
static struct gc_stack_addr hh_base_addr;
static void bind_mutator(int i, struct gc_mutator *mut) {
  H->m[i].mut = mut; H->m[i].active = 1;
  memset(H->m[i].roots, 0, sizeof *H->m[i].roots);
  memset(H->m[i].sh, 0, sizeof H->m[i].sh);
  H->m[i].roots->n = HH_SLOTS;
  gc_mutator_set_roots(mut, H->m[i].roots);
}
int hh_setup_try(struct hh_config *c) {
  struct hh_config d = { 0 };
  if (!c) c = &d;
  if (!H) hh_mem();
  struct gc_options *o = gc_allocate_options();
  gc_options_set_int(o, GC_OPTION_HEAP_SIZE_POLICY, c->policy);
  gc_options_set_size(o, GC_OPTION_HEAP_SIZE, c->heap ? c->heap : 8 << 20);
  H->policy = c->policy; H->mult = c->mult ? c->mult : 1.75; H->heap0 = c->heap ? c->heap : 8 << 20;
  if ((H->max = c->max)) gc_options_set_size(o, GC_OPTION_MAXIMUM_HEAP_SIZE, c->max);
  if (c->mult) gc_options_set_double(o, GC_OPTION_HEAP_SIZE_MULTIPLIER, c->mult);
  if (c->expansiveness) gc_options_set_double(o, GC_OPTION_HEAP_EXPANSIVENESS, c->expansiveness);
  gc_options_set_int(o, GC_OPTION_PARALLELISM, c->par ? c->par : 1);
  struct gc_mutator *mut = NULL;
  if (!gc_init(o, gc_empty_stack_addr(), &H->heap, &mut, HH_LISTENER, hh_listener_data())) return 0;
  if (!H->init_seen) mc_fail("event order: init not reported");
  if (H->heap_size != H->heap0) mc_fail("heap size policy: asked for a heap of %zu bytes, got %zu", H->heap0, H->heap_size);
  if (H->mut_added != 1) mc_fail("event order: mutator_added not reported for the first mutator");
  H->nm = 1;
  bind_mutator(0, mut);
  if (gc_mutator_heap(mut) != H->heap) mc_fail("gc_mutator_heap is wrong");
  H->hroots->n = HH_SLOTS;
  gc_heap_set_roots(H->heap, H->hroots);
  gc_set_finalizer_callback(H->heap, fin_callback);
  return 1;
}
void hh_setup(struct hh_config *c) { if (!hh_setup_try(c)) mc_fail("gc_init failed"); }
int hh_add_mutator(void) {
  int i;
  for (i = 0; i < H->nm; i++) if (!H->m[i].active) break;
  if (i == H->nm) H->nm++;
  H->m[i].active = 2;      // reserved: gc_init_for_thread may block
  memset(H->m[i].sh, 0, sizeof H->m[i].sh);
  struct gc_mutator *mut = gc_init_for_thread(gc_empty_stack_addr(), H->heap);
  bind_mutator(i, mut);
  return i;
}
void hh_remove_mutator(int i) {
  struct gc_mutator *mut = H->m[i].mut;
  memset(H->m[i].sh, 0, sizeof H->m[i].sh);
  H->m[i].active = 2;
  gc_finish_for_thread(mut);
  H->m[i].mut = NULL; H->m[i].active = 0;
}

// -------------------------------------------------------------------- model
static struct so *O(int id) { return &H->o[id]; }
static int new_so(int kind, size_t size, int nf) {
  if (H->no >= HH_MAXO || H->nfpool + nf > FPOOL) { fprintf(stderr, "hh: out of shadow objects\n"); abort(); }
  int id = H->no++;
  struct so *s = O(id);
  memset(s, 0, sizeof *s);
  s->kind = kind; s->used = 1; s->size = size; s->nf = nf;
  s->f = H->fpool + H->nfpool; H->nfpool += nf;
  for (int i = 0; i < nf; i++) s->f[i] = 0;
  s->born = H->gcs;
  return id;
}
static int sp;
static void push(uint8_t *r, int id) { if (id > 0 && !r[id]) { r[id] = 1; stk[sp++] = id; } }
static void scan(uint8_t *r) {
  // closure, with ephemeron semantics
  for (;;) {
    while (sp) {
      struct so *s = O(stk[--sp]);
      for (int i = 0; i < s->nf; i++) push(r, s->f[i]);
      if (s->kind == MO_EPH) push(r, s->chain);
      if (s->kind == MO_FIN) {
        // reached by the program only once popped; then its edges are strong
        if (s->fstate == FS_POPPED) { push(r, s->obj); }
        push(r, s->clo);
      }
    }
    int more = 0;
    for (int i = 1; i < H->no; i++) {
      struct so *s = O(i);
      if (r[i] && s->kind == MO_EPH && !s->dead && s->key && (s->key < 0 || r[s->key]) && s->val > 0 && !r[s->val]) { push(r, s->val); more = 1; }
    }
    if (!more) break;
  }
}
// mode 0: finalizers that may have fired hold their object; 1: they do not.
static void reach(uint8_t *r, int certain) {
  memset(r, 0, H->no + 1); sp = 0;
  for (int m = 0; m < H->nm; m++) if (H->m[m].active) for (int i = 0; i < HH_SLOTS; i++) push(r, H->m[m].sh[i]);
  for (int i = 0; i < HH_SLOTS; i++) push(r, H->hsh[i]);
  for (int i = 0; i < H->ncw; i++) if (H->cw[i].w) push(r, H->cw[i].id);
  for (int i = 1; i < H->no; i++) {
    struct so *s = O(i);
    if (s->kind != MO_FIN) continue;
    if (s->fstate == FS_ATTACHED) {
      push(r, i); push(r, s->clo);
      if (certain ? s->must_fire : s->may_fire) push(r, s->obj);
    }
  }
  scan(r);
}
void hh_reachability(uint8_t *r, int all) { reach(r, !all); }

static void model_gc(int kind) {
  int full = kind != GC_COLLECTION_MINOR;
  // what certainly / possibly remains reachable
  reach(R_min, 1);
  reach(R_max, 0);
  // Finalizers, urgent first.  lo: reachable given everything that must have
  // fired earlier; hi: reachable given everything that may have fired.
  for (unsigned p = 0; p < gc_finalizer_priority_count(); p++) {
    for (int i = 1; i < H->no; i++) {
      struct so *s = O(i);
      if (s->kind != MO_FIN || s->fstate != FS_ATTACHED || s->prio != p) continue;
      s->swept = !R_min[s->obj];
    }
    // must fire: unreachable however the choices so far went.  Of several
    // finalizers on one object at one level, some one must (s->raw: the object is
    // certainly held by the queue afterwards).
    for (int i = 1; i < H->no; i++) {
      struct so *s = O(i);
      s->chained = 0;
      if (s->kind != MO_FIN || s->fstate != FS_ATTACHED || s->prio != p || !s->swept || s->must_fire) continue;
      if (full && HH_PRECISE && !R_max[s->obj]) {
        int twin = 0;
        for (int j = 1; j < H->no; j++) {
          struct so *t = O(j);
          if (j != i && t->kind == MO_FIN && t->fstate == FS_ATTACHED && t->prio == p && t->obj == s->obj) twin = 1;
        }
        s->chained = 1;
        if (!twin) s->must_fire = 1;
      }
    }
    for (int i = 1; i < H->no; i++) {
      struct so *s = O(i);
      if (s->kind == MO_FIN && s->fstate == FS_ATTACHED && s->prio == p && s->swept) s->may_fire = 1;
    }
    sp = 0;
    for (int i = 1; i < H->no; i++) {
      struct so *s = O(i);
      if (s->kind != MO_FIN || s->fstate != FS_ATTACHED || s->prio != p) continue;
      if (s->must_fire || s->chained) push(R_min, s->obj);
    }
    scan(R_min); sp = 0;
    for (int i = 1; i < H->no; i++) {
      struct so *s = O(i);
      if (s->kind != MO_FIN || s->fstate != FS_ATTACHED || s->prio != p) continue;
      if (s->may_fire) push(R_max, s->obj);
    }
    scan(R_max);
  }
  // Ephemerons
  for (int i = 1; i < H->no; i++) {
    struct so *s = O(i);
    if (s->kind != MO_EPH || s->dead || s->key <= 0) continue;
    if (!R_min[s->key]) s->raw = 1;                    // may be dead from now on
    if (full && HH_PRECISE && !R_max[s->key]) s->must_dead = 1;
  }
}

// -------------------------------------------------------------------- real heap
static struct mo *M(void *p) { return p; }
static const char *describe(int id) {
  static char b[4][160]; static int k; k = (k + 1) & 3;
  if (id <= 0 || id >= H->no) snprintf(b[k], 160, "object #%d", id);
  else { struct so *s = O(id); snprintf(b[k], 160, "object #%d (kind %d%s, size %u, %d fields, born after gc %lu, last at %#lx)", id, s->kind, s->ext ? " external" : s->pinned ? " pinned" : "", s->size, s->nf, (unsigned long)s->born, (unsigned long)s->addr); }
  return b[k];
}
static size_t payload_start(struct so *s) { return s->kind == MO_NODE || s->kind == MO_LEAF ? 1 + s->nf : 0; }
static int is_raw(struct so *s) { return s->kind == 0; }
static void fill(int id, void *p) {
  struct so *s = O(id); uintptr_t *w = p;
  size_t n = s->size / 8;
  for (size_t i = payload_start(s); i < n; i++) {
    if (s->size > 8192 && i > 64 && i + 64 < n && (i & 511) > 1) continue;
    w[i] = pat(id, i);
  }
  for (size_t b = n * 8; b < s->size; b++) ((uint8_t *)p)[b] = 0xd5;
}
static void check_payload(int id, void *p) {
  struct so *s = O(id); uintptr_t *w = p;
  size_t n = s->size / 8;
  for (size_t i = payload_start(s); i < n; i++) {
    if (s->size > 8192 && i > 64 && i + 64 < n && (i & 511) > 1) continue;
    if (i < (size_t)s->nf) continue;     // fields of a raw object
    if (w[i] != pat(id, i)) mc_fail("contents of %s corrupted: word %zu is %#lx, want %#lx", describe(id), i, w[i], pat(id, i));
  }
  for (size_t b = n * 8; b < s->size; b++)
    if (((uint8_t *)p)[b] != 0xd5) mc_fail("contents of %s corrupted: byte %zu", describe(id), b);
}
static int visit_real(int id, uintptr_t p, const char *from, int fromid) {
  // a live reference denotes object id and is stored as p
  struct so *s = O(id);
  if (!p) mc_fail("%s of %s became null; it should refer to %s", from, describe(fromid), describe(id));
  if (s->addr_stamp == H->stamp) {
    if (s->addr != p) mc_fail("two references to %s disagree: %#lx and %#lx (%s of #%d)", describe(id), s->addr, p, from, fromid);
    return 0;
  }
  if (s->ext) { if (p != H->ext->obj[s->ext - 1].addr) mc_fail("reference to external object changed"); }
  else {
    if (p & 7) mc_fail("%s of %s is %#lx, not an aligned object address; want %s", from, describe(fromid), p, describe(id));
#ifndef HH_BDW
    if (!mc_mapped(p, s->size)) mc_fail("%s of %s is %#lx, outside heap memory; want %s", from, describe(fromid), p, describe(id));
#endif
  }
  if (!is_raw(s)) {
    uintptr_t tag = M((void *)p)->tag;
    if (s->kind == MO_EPH || s->kind == MO_FIN) {
      if (mo_kind(tag) != s->kind || mo_id(tag) != (unsigned)id || !(tag & 1))
        mc_fail("%s of %s is %#lx whose header %#lx is not that of %s", from, describe(fromid), p, tag, describe(id));
    } else if (tag != MO_TAG(s->kind, s->size, s->nf, id))
      mc_fail("%s of %s is %#lx whose header %#lx is not that of %s", from, describe(fromid), p, tag, describe(id));
  }
  if (s->pinned && s->pin_addr != p) mc_fail("pinned %s moved from %#lx to %#lx", describe(id), s->pin_addr, p);
  s->addr = p; s->addr_stamp = H->stamp;
  if (!s->ext) vis[nvis++] = (struct vis){ p, p + s->size, id };
  stk[sp++] = id;
  H->verified_objects++;
  return 1;
}
// What the heap size must be, given what is reachable.
#define MARGIN (4u << 20)
static void compare_ages(void);
static void check_heap_size(void) {
  size_t live = 0, hold = 0;
  for (int i = 0; i < nvis; i++) live += vis[i].hi - vis[i].lo;
  for (int i = 1; i < H->no; i++) if (O(i)->fstate) hold = 1;      // queued finalizers hold more than is visible
  for (int i = 0; i < H->ncw; i++) if (H->cw[i].w) hold = 1;
  if (live > H->heap_size) mc_fail("heap size policy: %zu bytes are live in a heap of size %zu", live, H->heap_size);
  if (live != H->last_live) { H->last_live = live; H->streak = 0; }
  // Several full collections in a row, nothing allocated in between: the policy has settled.
  if (H->streak < 3 || H->allocated_bytes != H->streak_allocs) return;
  // mmc estimates what is live from the previous sweep, to within a block or so
#if HH_COLLECTOR_MMC
  live = live > 131072 ? live - 131072 : 0;
#endif
  if (H->policy == GC_HEAP_SIZE_GROWABLE && H->heap_size < live * H->mult * 0.999)
    mc_fail("heap size policy: growable heap of size %zu, %zu bytes live, multiplier %g", H->heap_size, live, H->mult);
  if (H->policy == GC_HEAP_SIZE_ADAPTIVE) {
    if (H->heap_size < live * 1.099 || H->heap_size < live + MARGIN)
      mc_fail("heap size policy: adaptive heap of size %zu is too small for %zu live bytes", H->heap_size, live);
    size_t est = live + live / 4 + (1 << 20);       // collectors may count fragmentation as live
    if (!hold && HH_PRECISE && !GC_CONSERVATIVE_TRACE && H->heap_size > est * 5 && H->heap_size > est + MARGIN)
      mc_fail("heap size policy: adaptive heap of size %zu is too big for %zu live bytes", H->heap_size, live);
  }
}
static int cmp_vis(const void *a, const void *b) { const struct vis *x = a, *y = b; return x->lo < y->lo ? -1 : x->lo > y->lo; }

void hh_verify(void) {
  H->stamp++; nvis = 0; sp = 0;
  for (int m = 0; m < H->nm; m++) if (H->m[m].active == 1)
    for (int i = 0; i < HH_SLOTS; i++) {
      void *p = H->m[m].roots->slot[i]; int id = H->m[m].sh[i];
      if (id > 0) visit_real(id, (uintptr_t)p, "mutator root", 0);
      else if (id == 0) { if (p) mc_fail("null root of mutator %d became %p", m, p); }
      else if (p != IMM(id)) mc_fail("immediate root changed: %p, want %p", p, IMM(id));
    }
  for (int i = 0; i < HH_SLOTS; i++) {
    int id = H->hsh[i]; void *p = H->hroots->slot[i];
    if (id > 0) visit_real(id, (uintptr_t)p, "heap root", 0);
    else if (p != (id ? IMM(id) : NULL)) mc_fail("null or immediate heap root changed to %p", p);
  }
  for (int i = 0; i < H->ncw; i++) if (H->cw[i].w) {
    if (*H->cw[i].w != H->cw[i].expect) mc_fail("a conservatively scanned word was modified: %#lx, was %#lx", *H->cw[i].w, H->cw[i].expect);
    visit_real(H->cw[i].id, H->cw[i].expect - H->cw[i].off, "conservative word", 0);
  }
  while (sp) {
    int id = stk[--sp]; struct so *s = O(id);
    struct mo *o = (void *)s->addr;
    for (int i = 0; i < s->nf; i++) {
      void *p = o->f[i - (is_raw(s) ? 1 : 0)]; int v = s->f[i];
      if (v > 0) { char b[24]; sprintf(b, "field %d", i); visit_real(v, (uintptr_t)p, b, id); }
      else if (v == 0) { if (p) mc_fail("null field %d of %s became %p", i, describe(id), p); }
      else if (p != IMM(v)) mc_fail("immediate field %d of %s changed to %p, want %p", i, describe(id), p, IMM(v));
    }
    if (s->kind == MO_NODE || s->kind == MO_LEAF || is_raw(s)) check_payload(id, o);
    if (s->kind == MO_EPH) {
      struct gc_ephemeron *e = (void *)o;
      uintptr_t k = gc_ref_value(gc_ephemeron_key(e)), v = gc_ref_value(gc_ephemeron_value(e));
      if (!k) {
        if (v) mc_fail("ephemeron %s has no key but still has a value", describe(id));
        if (!s->dead && !s->raw) mc_fail("ephemeron %s died although its key %s was reachable", describe(id), describe(s->key));
        s->dead = 1;
      } else {
        if (s->dead) mc_fail("dead ephemeron %s came back to life", describe(id));
        if (s->must_dead) mc_fail("ephemeron %s still has a key after a full collection found the key %s unreachable", describe(id), describe(s->key));
        if (s->key < 0) { if (k != (uintptr_t)IMM(s->key)) mc_fail("immediate key of ephemeron %s changed", describe(id)); }
        else visit_real(s->key, k, "ephemeron key", id);
        if (s->val == 0) { if (v) mc_fail("null value of ephemeron %s changed", describe(id)); }
        else if (s->val < 0) { if (v != (uintptr_t)IMM(s->val)) mc_fail("immediate value of ephemeron %s changed", describe(id)); }
        else visit_real(s->val, v, "ephemeron value", id);
      }
      // the chain holds every live successor, in order, and no dead one
      int want = s->chain;
      while (want && (O(want)->dead)) want = O(want)->chain;
      struct gc_ephemeron *n = gc_ephemeron_chain_next(e);
      // successors that died in a collection since the last look
      while (want && (n ? mo_id(M(n)->tag) != (unsigned)want : 1) && (O(want)->raw)) { O(want)->dead = 1; want = O(want)->chain; while (want && O(want)->dead) want = O(want)->chain; }
      if (want) visit_real(want, (uintptr_t)n, "chain link", id);
      else if (n) mc_fail("chain of %s continues at %p (id %u) but should end", describe(id), (void *)n, mo_id(M(n)->tag));
    }
    if (s->kind == MO_FIN) {
      struct gc_finalizer *f = (void *)o;
      uintptr_t p = gc_ref_value(gc_finalizer_object(f)), c = gc_ref_value(gc_finalizer_closure(f));
      if (s->fstate == FS_POPPED) visit_real(s->obj, p, "finalizer object", id);
      if (s->clo > 0) visit_real(s->clo, c, "finalizer closure", id);
      else if (c != (s->clo ? (uintptr_t)IMM(s->clo) : 0)) mc_fail("finalizer closure changed");
    }
  }
  qsort(vis, nvis, sizeof *vis, cmp_vis);
  for (int i = 1; i < nvis; i++)
    if (vis[i].lo < vis[i - 1].hi) mc_fail("%s at %#lx overlaps %s at %#lx", describe(vis[i].id), vis[i].lo, describe(vis[i - 1].id), vis[i - 1].lo);
  check_heap_size();
  compare_ages();
  mc_transition();
}

// -------------------------------------------------------------------- operations
#define ROOT(m, s) (H->m[m].roots->slot[s])
#define SH(m, s) (H->m[m].sh[s])
void *hh_addr(int m, int s) { return ROOT(m, s); }
static void track(int id, void *p) { O(id)->addr = (uintptr_t)p; }

static void check_fresh(void *p, size_t size, const char *what) {
  if (!p) mc_fail("%s of %zu bytes returned null", what, size);
  size_t al = size > 8192 ? 8 : HH_GRANULE;
  if ((uintptr_t)p & (al - 1)) mc_fail("%s of %zu bytes returned misaligned %p", what, size, p);
#ifndef HH_BDW
  if (!mc_mapped((uintptr_t)p, size)) mc_fail("%s of %zu bytes returned %p, outside heap memory", what, size, p);
#endif
  uint8_t *b = p;
  size_t i = 0;
  for (; i + 8 <= size; i += 8) if (*(uint64_t *)(b + i)) break;
  for (; i < size; i++) if (b[i]) mc_fail("%s of %zu bytes at %p is not zeroed: byte %zu is %#x", what, size, p, i, b[i]);
}
static void count_alloc(size_t size) {
  H->allocated_bytes += size;
  size_t unit = size > gc_allocator_large_threshold() ? 4096 : HH_GRANULE;
  H->allocated_ub += (size + unit - 1) / unit * unit;
  if (size <= gc_allocator_large_threshold()) H->allocated_small++;
}
static void *alloc_checked(int m, size_t size, int ak) {
  struct gc_mutator *mut = H->m[m].mut;
  void *p = H->path[m] == 1 ? ha_alloc_slow(mut, size, ak) : H->path[m] == 2 ? ja_alloc(mut, size, ak) : ha_alloc(mut, size, ak);
  check_fresh(p, size, "allocation");
  count_alloc(size);
  return p;
}
int hh_alloc(int m, int kind, size_t size, int nf, int slot, int ak) {
  void *p = alloc_checked(m, size, ak);
  int id = new_so(kind, size, nf);
  if (kind) M(p)->tag = MO_TAG(kind, size, nf, id);
  fill(id, p);
  track(id, p);
  if (slot >= 0) { ROOT(m, slot) = p; SH(m, slot) = id; }
  return id;
}
int hh_node(int m, int nf, size_t size, int slot) {
  if (size < 8 + 8u * nf) size = 8 + 8 * nf;
  return hh_alloc(m, MO_NODE, size, nf, slot, GC_ALLOCATION_TAGGED);
}
int hh_leaf(int m, size_t size, int slot) { return hh_alloc(m, MO_LEAF, size, 0, slot, GC_ALLOCATION_TAGGED_POINTERLESS); }
int hh_raw(int m, size_t size, int slot) { return hh_alloc(m, 0, size, 0, slot, GC_ALLOCATION_UNTAGGED_POINTERLESS); }
int hh_rawcons(int m, size_t size, int nf, int slot) {
  void *p = alloc_checked(m, size, GC_ALLOCATION_UNTAGGED_CONSERVATIVE);
  int id = new_so(0, size, nf);
  uintptr_t *w = p; struct so *s = O(id);
  for (size_t i = nf; i < size / 8; i++) w[i] = pat(id, i);
  for (size_t b = size / 8 * 8; b < size; b++) ((uint8_t *)p)[b] = 0xd5;
  s->used = 2;
  track(id, p);
  if (slot >= 0) { ROOT(m, slot) = p; SH(m, slot) = id; }
  return id;
}
// Every way of asking agrees, before and after the store is announced in the way chosen.
static void store_compared(int m, struct mo *o, struct so *s, void **loc, void *p) {
  struct gc_mutator *mut = H->m[m].mut;
  int old = ha_is_old(mut, o, s->size), vold = ha_is_old_slow(mut, p);
  int f = ha_barrier_fast(mut, o, s->size, loc, p), j = ja_barrier_fast(mut, o, s->size, loc);
  if (!f != !j) mc_fail("inline write barrier says %d, the attributes say %d", f, j);
  if (f && !old && gc_write_barrier_kind(s->size) != GC_WRITE_BARRIER_SLOW) mc_fail("inline write barrier announces a store to a young object");
  if (H->path[m] == 1 ? old : 0) ha_store_slow(mut, o, s->size, loc, p);
  else if (H->path[m] == 2) ja_store(mut, o, s->size, loc, p);
  else ha_store(mut, o, s->size, loc, p);
  if (gc_write_barrier_kind(s->size) == GC_WRITE_BARRIER_FIELD && old && !vold && ha_barrier_fast(mut, o, s->size, loc, p))
    mc_fail("a store of a young object to field %zu of an old one was announced, but is not recorded as such", loc - o->f);
}
static void compare_ages(void) {
  if (!H->compare_paths) return;
  for (int i = 0; i < nvis; i++) {
    struct so *s = O(vis[i].id); void *p = (void *)vis[i].lo; struct gc_mutator *mut = H->m[0].mut;
    int a = ha_is_old(mut, p, s->size), b = ha_is_old_slow(mut, p), c = ja_is_old(mut, p, s->size);
    if (!a != !b) mc_fail("inline code says %s is %s, the collector says it is %s", describe(vis[i].id), a ? "old" : "young", b ? "old" : "young");
    if (!a != !c) mc_fail("inline code says %s is %s, the attributes say it is %s", describe(vis[i].id), a ? "old" : "young", c ? "old" : "young");
  }
}
void hh_store_mode(int m, int slot, int field, int vslot, int mode) {
  struct so *s = O(SH(m, slot));
  struct mo *o = ROOT(m, slot);
  void **loc = (void **)o + field + (is_raw(s) ? 0 : 1);
  if (vslot < 0) {
    // null and immediates need no announcement
    int v = vslot == -1 ? 0 : vslot;
    ha_store_nobarrier(loc, v ? IMM(v) : NULL); s->f[field] = v;
    return;
  }
  int v = SH(m, vslot); void *p = ROOT(m, vslot);
  if (v <= 0) { ha_store_nobarrier(loc, p); s->f[field] = v; return; }
  if (s->ext) ha_store_nobarrier(loc, p);      // not a heap object
  else if (H->compare_paths) store_compared(m, o, s, loc, p);
  else if (H->path[m] == 2) ja_store(H->m[m].mut, o, s->size, loc, p);
  else if ((mode == 1 || H->path[m] == 1) && hh_is_old(m, slot)) ha_store_slow(H->m[m].mut, o, s->size, loc, p);   // the slow path is for old objects
  else ha_store(H->m[m].mut, o, s->size, loc, p);
  s->f[field] = v;
}
void hh_store(int m, int slot, int field, int vslot) { hh_store_mode(m, slot, field, vslot, 0); }
void hh_load(int m, int dst, int slot, int field) {
  struct so *s = O(SH(m, slot));
  if (SH(m, slot) <= 0) return;
  void **loc = (void **)ROOT(m, slot) + field + (is_raw(s) ? 0 : 1);
  ROOT(m, dst) = *loc; SH(m, dst) = s->f[field];
}
void hh_root(int m, int dst, int src) {
  if (src == -1) { ROOT(m, dst) = NULL; SH(m, dst) = 0; }
  else if (src < -1) { ROOT(m, dst) = IMM(src); SH(m, dst) = src; }
  else { ROOT(m, dst) = ROOT(m, src); SH(m, dst) = SH(m, src); }
}
void hh_heap_root(int dst, int m, int src) {
  if (src == -1) { H->hroots->slot[dst] = NULL; H->hsh[dst] = 0; }
  else { H->hroots->slot[dst] = ROOT(m, src); H->hsh[dst] = SH(m, src); }
}
int hh_ephemeron(int m, int slot, int kslot, int vslot) {
  struct gc_ephemeron *e = gc_allocate_ephemeron(H->m[m].mut);
  if (!e) mc_fail("gc_allocate_ephemeron returned null");
  check_fresh(e, gc_ephemeron_size(), "ephemeron allocation");
  count_alloc(gc_ephemeron_size());
  int id = new_so(MO_EPH, gc_ephemeron_size(), 0);
  struct so *s = O(id);
  s->key = kslot >= 0 ? SH(m, kslot) : kslot; s->val = vslot >= 0 ? SH(m, vslot) : vslot == -1 ? 0 : vslot;
  M(e)->tag = MO_TAG(MO_EPH, 0, 0, id);
  gc_ephemeron_init(H->m[m].mut, e,
                    kslot >= 0 ? gc_ref((uintptr_t)ROOT(m, kslot)) : gc_ref((uintptr_t)IMM(kslot)),
                    vslot >= 0 ? gc_ref((uintptr_t)ROOT(m, vslot)) : vslot == -1 ? gc_ref_null() : gc_ref((uintptr_t)IMM(vslot)));
  track(id, e);
  ROOT(m, slot) = e; SH(m, slot) = id;
  return id;
}
// Push the ephemeron in eslot onto the chain headed by root chain_slot.
void hh_chain_push(int m, int chain_slot, int eslot) {
  struct so *s = O(SH(m, eslot));
  int head = SH(m, chain_slot);
  // as the implementation may drop dead heads on reading only, the raw head is
  // still the root slot's content
  gc_ephemeron_chain_push((struct gc_ephemeron **)&ROOT(m, chain_slot), ROOT(m, eslot));
  s->chain = head;
  SH(m, chain_slot) = SH(m, eslot);
}
void hh_mark_dead(int m, int slot) {
  gc_ephemeron_mark_dead(ROOT(m, slot)); O(SH(m, slot))->dead = 1;
}
int hh_finalizer(int m, int oslot, int cslot, int prio) {
  struct gc_finalizer *f = gc_allocate_finalizer(H->m[m].mut);
  check_fresh(f, gc_finalizer_size(), "finalizer allocation");
  count_alloc(gc_finalizer_size());
  int id = new_so(MO_FIN, gc_finalizer_size(), 0);
  struct so *s = O(id);
  M(f)->tag = MO_TAG(MO_FIN, 0, 0, id);
  s->obj = SH(m, oslot); s->clo = cslot >= 0 ? SH(m, cslot) : cslot == -1 ? 0 : cslot; s->prio = prio;
  gc_finalizer_attach(H->m[m].mut, f, prio, gc_ref((uintptr_t)ROOT(m, oslot)),
                      cslot >= 0 ? gc_ref((uintptr_t)ROOT(m, cslot)) : cslot == -1 ? gc_ref_null() : gc_ref((uintptr_t)IMM(cslot)));
  s->fstate = FS_ATTACHED;
  track(id, f);
  return id;
}
int hh_pop(int m, int slot) {
  struct gc_finalizer *f = gc_pop_finalizable(H->m[m].mut);
  if (!f) return 0;
  if ((uintptr_t)f & 7) mc_fail("popped finalizer %p is not an object", (void *)f);
#ifndef HH_BDW
  if (!mc_mapped((uintptr_t)f, gc_finalizer_size())) mc_fail("popped finalizer %p is outside heap memory", (void *)f);
#endif
  uintptr_t tag = M(f)->tag; int id = mo_id(tag);
  if (mo_kind(tag) != MO_FIN || id <= 0 || id >= H->no || O(id)->kind != MO_FIN) mc_fail("popped object with header %#lx is not a finalizer", tag);
  struct so *s = O(id);
  if (s->fstate == FS_POPPED) mc_fail("finalizer %s delivered twice", describe(id));
  if (s->fstate != FS_ATTACHED) mc_fail("finalizer %s delivered but was never attached", describe(id));
  if (!s->may_fire) mc_fail("finalizer %s (priority %d) fired although its object %s was reachable or has a more urgent finalizer outstanding", describe(id), s->prio, describe(s->obj));
  uintptr_t o = gc_ref_value(gc_finalizer_object(f)), c = gc_ref_value(gc_finalizer_closure(f));
  if (!o) mc_fail("delivered finalizer %s has no object", describe(id));
  (void)c;
  s->fstate = FS_POPPED; H->fin_expected_popped++;
  ROOT(m, slot) = f; SH(m, slot) = id;
  return id;
}
void hh_check_fired(void) {
  // after the queue has been drained
  for (int i = 1; i < H->no; i++) {
    struct so *s = O(i);
    if (s->kind == MO_FIN && s->fstate == FS_ATTACHED) {
      if (s->must_fire) mc_fail("finalizer %s (priority %d) was not delivered although a full collection found its object %s unreachable", describe(i), s->prio, describe(s->obj));
      s->may_fire = 0;   // the queue is empty, so it has not fired
    }
  }
  if (H->fin_cb != H->fin_expected_popped)
    mc_fail("the finalizer callback announced %lu finalizers, %lu were delivered", (unsigned long)H->fin_cb, (unsigned long)H->fin_expected_popped);
}
// The allocation counter, read by the mutator.  What has been allocated before a
// collection is accounted for by it; what came later may or may not be yet.
void hh_check_counter(int upper) {
  static uint64_t last;
  uint64_t prev = last, accounted = H->allocated_at_gc;
  uint64_t c = gc_allocation_counter(H->heap);
  if (c < prev) mc_fail("allocation counter went from %lu back to %lu", (unsigned long)prev, (unsigned long)c);
  if (c > last) last = c;
  if (c < accounted)
    mc_fail("allocation counter is %lu after a collection, but %lu bytes had been allocated by then", (unsigned long)c, (unsigned long)accounted);
  // what is left over in a thread's allocation area may count at each collection
  uint64_t ub = H->allocated_ub + (H->gcs + 1) * HH_AREA;
  if (upper && c > ub) mc_fail("allocation counter is %lu, but only %lu bytes have been allocated, in %lu collections", (unsigned long)c, (unsigned long)H->allocated_ub, (unsigned long)H->gcs);
}
void hh_drain(int m, int slot) {
  while (hh_pop(m, slot)) hh_verify();
  hh_root(m, slot, -1);
  hh_check_fired();
}
void hh_pin(int m, int slot) {
  gc_pin_object(H->m[m].mut, gc_ref_from_heap_object(ROOT(m, slot)));
  struct so *s = O(SH(m, slot)); s->pinned = 1; s->pin_addr = (uintptr_t)ROOT(m, slot);
}
void hh_collect(int m, int kind) {
  uint64_t before = H->gcs, majors = H->majors;
  gc_collect(H->m[m].mut, kind);
  if (kind >= GC_COLLECTION_MAJOR && H->majors == majors)
    mc_fail("gc_collect(%s) returned but only minor collections ran since the request", hh_kind_name(kind));
  if (H->gcs == before) mc_fail("gc_collect(%s) returned without any collection", hh_kind_name(kind));
  if (H->ev_state != E_IDLE && H->nm == 1) mc_fail("gc_collect returned with a collection in progress");
}
void hh_safepoint(int m) {
#if !HH_COLLECTOR_SEMI
  if (H->path[m] == 1) { ha_safepoint_slow(H->m[m].mut); return; }
#endif
  if (H->path[m] == 2) ja_safepoint(H->m[m].mut); else ha_safepoint(H->m[m].mut);
  if (ha_should_stop(H->m[m].mut) && H->nm == 1) mc_fail("asked to stop, alone");
}
int hh_is_old(int m, int slot) { return ha_is_old(H->m[m].mut, ROOT(m, slot), O(SH(m, slot))->size); }
void hh_extern(int m, int slot, int nf) {
  if (!H->ext) { H->ext = big(sizeof *H->ext); gc_heap_set_extern_space(H->heap, H->ext); }
  int i = H->ext->n++;
  // far from everything else, so that mistaking it for a heap object shows
  char *p = __real_mmap((void *)(0x300000000000 + i * 0x1000000000), 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  int id = new_so(MO_NODE, 8 + 8 * nf, nf);
  O(id)->ext = i + 1;
  H->ext->obj[i].addr = (uintptr_t)p; H->ext->obj[i].size = 8 + 8 * nf;
  M(p)->tag = MO_TAG(MO_NODE, 8 + 8 * nf, nf, id);
  ROOT(m, slot) = p; SH(m, slot) = id;
}
void hh_cons_word(uintptr_t *w, int m, int slot, uintptr_t off) {
  int i = H->ncw++;
  H->cw[i].w = w; H->cw[i].id = SH(m, slot); H->cw[i].off = off;
  H->cw[i].expect = *w = (uintptr_t)ROOT(m, slot) + off;
}
void hh_cons_clear(int i) { if (H->cw[i].w) *H->cw[i].w = 0; H->cw[i].w = NULL; }
void hh_garbage(int m, size_t size, size_t total, int ak, int nf) {
  for (size_t done = 0; done < total; done += size) {
    void *p = alloc_checked(m, size, ak);
    // give it a header and dirty contents
    if (ak == GC_ALLOCATION_TAGGED || ak == GC_ALLOCATION_TAGGED_POINTERLESS)
      M(p)->tag = MO_TAG(ak == GC_ALLOCATION_TAGGED ? MO_NODE : MO_LEAF, size, nf, 0xffff);
    else *(uintptr_t *)p = 0x5555555555555555ull;
    uintptr_t *w = p;
    size_t n = size / 8;
    for (size_t i = 1 + nf; i < n; i++) { if (i > 70 && i + 8 < n && (i & 511)) continue; w[i] = 0x7777777777777777ull; }
  }
}
size_t hh_live_bytes(void) {
  reach(hh_reach, 0);
  size_t n = 0;
  for (int i = 1; i < H->no; i++) if (hh_reach[i] && !O(i)->ext) n += (O(i)->size + 15) & ~15ull;
  return n;
}
void hh_check_events(void) {
  if (H->ev_state != E_IDLE) mc_fail("event order: a collection has not been reported finished");
  if (H->mut_stopping != H->mut_stopped || H->mut_stopped != H->mut_restarted)
    mc_fail("event order: %d mutators stopping, %d stopped, %d restarted", H->mut_stopping, H->mut_stopped, H->mut_restarted);
  if ((uint64_t)H->cause_gc != H->gcs) mc_fail("event order: %d collections caused, %lu happened", H->cause_gc, (unsigned long)H->gcs);
  if (H->live_events != H->gcs) mc_fail("event order: live data size reported %lu times for %lu collections", (unsigned long)H->live_events, (unsigned long)H->gcs);
  check_chain();
  if (H->ext && H->ext->bad) mc_fail("external space protocol violated (%d)", H->ext->bad);
}
uint64_t hh_state_hash(void) {
  // canonical: reachable graph shape in root order, kinds, ages
  reach(hh_reach, 0);
  uint64_t h = H->gcs * 4 + H->last_kind;
  for (int m = 0; m < H->nm; m++) for (int i = 0; i < HH_SLOTS; i++) h = mc_hash(h, H->m[m].sh[i]);
  for (int i = 1; i < H->no; i++) if (hh_reach[i]) {
    struct so *s = O(i); h = mc_hash(h, i * 64 + s->kind * 8 + s->dead * 4 + s->pinned * 2 + s->fstate);
    h = mc_hash(h, s->size); h = mc_hash(h, H->gcs - s->born);
    for (int f = 0; f < s->nf; f++) h = mc_hash(h, s->f[f]);
    h = mc_hash(h, s->key * 1000 + s->val);
  }
  return h;
}
void hh_seen(void) { mc_state(hh_state_hash()); }
