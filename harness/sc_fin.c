// Several threads attach finalizers and take finalizable objects at the same time.
//   --opt t0= t1= t2=: programs of f/v/J (attach, priority 0, 1, 2, to an object that
//   this thread then drops), o (pop), * (any);  npre: how many are ready at first;
//   att: how many more are attached (to objects that stay alive) at first
#include "hh.h"
#include <pthread.h>
const char *mc_harness_name = "fin-" HH_CONFIG;
#define NF 160
static struct { struct gc_finalizer *f; uint64_t otag, ctag; int attached, popped, alive, prio; } f[NF];
static int nf, npre;
static const char *prog[3];
static int own[3][8], nown[3];
static struct gc_mutator *mut[3];
static pthread_t th[3];
static uint64_t callbacks, announced;
static void cb(struct gc_heap *heap, size_t n) { announced += n; callbacks++; }
static uint64_t tag_of(struct gc_ref r) { return ((struct mo *)gc_ref_value(r))->tag; }

// set-up: a finalizer for a new object, both in roots of mutator 0 until it is attached
static int prepare(int alive) {
  int i = nf++;
  if (nf > NF) abort();
  hh_node(0, 1, 24, 1);
  hh_node(0, 1, 24, 2);
  f[i].f = gc_allocate_finalizer(H->m[0].mut);
  ((struct mo *)f[i].f)->tag = MO_TAG(MO_FIN, 0, 0, nf);
  f[i].otag = ((struct mo *)hh_addr(0, 1))->tag;
  f[i].ctag = ((struct mo *)hh_addr(0, 2))->tag;
  f[i].alive = alive;
  return i;
}
static struct gc_ref pobj[NF], pclo[NF];
static void attach(int th, int i, int prio) {
  f[i].attached = 1; f[i].prio = prio;
  gc_finalizer_attach(mut[th], f[i].f, prio, pobj[i], pclo[i]);
}
static int pop(int th) {
  struct gc_finalizer *x = gc_pop_finalizable(mut[th]);
  if (!x) return 0;
  struct gc_ref o = gc_finalizer_object(x), c = gc_finalizer_closure(x);
  if (gc_ref_is_null(o) || gc_ref_is_null(c)) mc_fail("a finalizer without an object or closure was handed out");
  for (int i = 0; i < nf; i++) if (f[i].otag == tag_of(o)) {
    if (!f[i].attached) mc_fail("finalizer %d was handed out, but never attached", i);
    if (f[i].popped++) mc_fail("finalizer %d was handed out twice", i);
    if (f[i].alive) mc_fail("finalizer %d was handed out, though its object is alive", i);
    if (tag_of(c) != f[i].ctag) mc_fail("finalizer %d was handed out with another's closure", i);
    return 1;
  }
  mc_fail("a finalizer was handed out whose object is none of those given");
}
static void program(int me, const char *s) {
  for (; *s; s++) {
    char c = *s;
    if (c == '*') c = "fvJo"[mc_choose(4)];
    mc_log("%d:%c ", me, c);
    switch (c) {
    case 'f': case 'v': case 'J': if (nown[me]) attach(me, own[me][--nown[me]], c == 'f' ? 0 : c == 'v' ? 1 : 2); break;
    case 'o': mc_log("(%d)", pop(me)); break;
    }
  }
}
static void *main2(void *a) { int me = (int)(uintptr_t)a; program(me, prog[me]); return a; }
static void make(int i) {
  pobj[i] = gc_ref((uintptr_t)hh_addr(0, 1)); pclo[i] = gc_ref((uintptr_t)hh_addr(0, 2));
}
void mc_harness(void) {
  struct hh_config c = { .heap = mc_opt("heap", 2 << 20), .par = 1 };
  mc_sched_enable(0);
  hh_setup(&c);
  H->no_model_gc = 1;
  gc_set_finalizer_callback(H->heap, cb);
  mut[0] = mut[1] = mut[2] = H->m[0].mut;      // attaching and popping need no mutator of one's own here
  npre = mc_opt("npre", 2);
  prog[0] = mc_optstr("t0", ""); prog[1] = mc_optstr("t1", ""); prog[2] = mc_optstr("t2", "");
  int att = mc_opt("att", 0);
  // those kept alive hang off one list in root 3
  hh_node(0, 1, 24, 3); hh_root(0, 4, 3);
  for (int k = 0; k < att; k++) {
    int i = prepare(1); make(i); attach(0, i, k % 3);
    hh_store(0, 1, 0, 4); hh_root(0, 4, 1);
  }
  hh_root(0, 3, -1);
  for (int k = 0; k < npre; k++) { int i = prepare(0); make(i); attach(0, i, mc_opt("prio", 0)); }
  hh_root(0, 1, -1); hh_root(0, 2, -1);
  gc_collect(H->m[0].mut, GC_COLLECTION_MAJOR);
  if (announced != (uint64_t)npre) mc_fail("%lu finalizers announced, of %d", (unsigned long)announced, npre);
  // unattached finalizers for the threads: no collection until they are attached
  for (int t = 0; t < 3; t++) for (const char *s = prog[t]; *s; s++) if (strchr("fvJ*", *s)) { int i = prepare(0); make(i); own[t][nown[t]++] = i; }
  hh_root(0, 1, -1); hh_root(0, 2, -1);
  mc_quiesce();
  mc_sched_enable(1);
  for (uintptr_t i = 1; i < 3; i++) if (prog[i][0]) pthread_create(&th[i], NULL, main2, (void *)i);
  program(0, prog[0]);
  for (int i = 1; i < 3; i++) if (prog[i][0]) pthread_join(th[i], NULL);
  mc_sched_enable(0);
  // what was ready is handed out now, in full
  int n = 0; for (int i = 0; i < nf; i++) n += f[i].popped;
  uint64_t h = mc_hash(n, nown[0] * 9 + nown[1]);
  while (pop(0)) n++;
  if (n != npre) mc_fail("%d finalizers were ready, %d were handed out", npre, n);
  // then each that was attached, once its object is found dead; and those alive stay
  int want = 0; for (int i = 0; i < nf; i++) want += f[i].attached && !f[i].popped && !f[i].alive;
  announced = 0;
  gc_collect(H->m[0].mut, GC_COLLECTION_MAJOR);
  gc_collect(H->m[0].mut, GC_COLLECTION_COMPACTING);
  while (pop(0)) n++;
  if (n != npre + want) mc_fail("%d finalizers were attached, %d were handed out", want, n - npre);
  if (announced != (uint64_t)want) mc_fail("%lu finalizers announced, of %d", (unsigned long)announced, want);
  for (int i = 0; i < nf; i++) f[i].alive = 0;
  hh_root(0, 4, -1);
  // they hold each other: less urgent ones wait for more urgent ones
  for (int k = 0, before = -1; k < 8 && n != before; k++) {
    before = n;
    gc_collect(H->m[0].mut, k & 1 ? GC_COLLECTION_COMPACTING : GC_COLLECTION_MAJOR);
    while (pop(0)) n++;
  }
  if (n != npre + want + att) mc_fail("%d finalizers of live objects were attached earlier, %d were handed out after those died", att, n - npre - want);
  mc_outcome(h);
}
