// The work-stealing deque: an owner and thieves, every schedule (and, with --tso,
// every delay of stores) up to the bound.
//   --opt fill=<items pushed first> --opt skip=<of which taken first, half by each end>
//   --opt owner=<p push, m push 3, M push a whole batch, o pop, z size, '*' any>
//   --opt thieves=<number> --opt steals=<each>
#define GC_IMPL 1
#include <stdio.h>
#include <string.h>
#include <stdatomic.h>
#include <pthread.h>
#include "gc-assert.h"
#include "gc-ref.h"
#include "shared-worklist.h"
#include "comp.h"
const char *mc_harness_name = "deque";

#define MAXITEM 9000
static struct shared_worklist *q;
static unsigned char taken[MAXITEM + 1];
static long pushed, done_takes, pending;       // oracle; updated under mc_atomic
static int steals, tso;   // tso: an ended push may not be visible yet

static void took(struct gc_ref r, const char *by, long least) {
  uintptr_t v = gc_ref_value(r);
  if (!v) {
    // nothing: every item whose push had ended before must be gone, or on its way out
    mc_check(least <= done_takes + pending, "%s found nothing, though %ld of %ld items were never taken", by, least - done_takes, least);
    return;
  }
  mc_check(v % 8 == 0 && v / 8 <= MAXITEM && (long)(v / 8) <= pushed, "%s took %lx, which was never put in", by, v);
  mc_check(!taken[v / 8], "item %lu was taken twice, then by a %s", v / 8, by);
  taken[v / 8] = 1; done_takes++;
}
static void owner_op(int c) {
  struct gc_ref r;
  if (c == 'p') {
    // the item counts as pushed from the start (a thief may see it at once)
    mc_atomic_begin(); long me = ++pushed; mc_atomic_end();
    shared_worklist_push(q, gc_ref(8 * me));
  } else if (c == 'm' || c == 'M') {
    static struct gc_ref v[768];
    int n = c == 'm' ? 3 : mc_opt("batch", 768);
    mc_atomic_begin();
    for (int i = 0; i < n; i++) v[i] = gc_ref(8 * (pushed + 1 + i));
    pushed += n;
    mc_atomic_end();
    shared_worklist_push_many(q, v, n);
  } else if (c == 'o') {
    mc_atomic_begin(); long least = pushed; mc_atomic_end();
    r = shared_worklist_try_pop(q);
    mc_atomic_begin(); took(r, "pop", least); mc_atomic_end();
  } else if (c == 'z') {
    ssize_t n = shared_worklist_size(q);
    mc_check(n <= pushed, "size %zd of at most %ld", n, pushed);
  }
}
// completed pushes: those before the one in progress; the owner is one thread, so
// count at the end of each operation
static long pushes_ended;

static void *thief(void *arg) {
  for (int i = 0; i < steals; i++) {
    mc_atomic_begin(); long least = tso ? 0 : pushes_ended; pending++; mc_atomic_end();
    struct gc_ref r = shared_worklist_steal(q);
    mc_atomic_begin(); pending--; took(r, "steal", least); mc_atomic_end();
  }
  return NULL;
}

void mc_harness(void) {
  long fill = mc_opt("fill", 0), skip = mc_opt("skip", 0), nth = mc_opt("thieves", 1);
  const char *prog = mc_optstr("owner", "po");
  const char *alpha = mc_optstr("alpha", "pom");
  steals = mc_opt("steals", 1); tso = mc_opt("tso", 0);
  q = aligned_alloc(128, (sizeof *q + 127) & ~127ul);
  mc_sched_enable(0);
  mc_check(shared_worklist_init(q), "init failed");
  mc_check(shared_worklist_size(q) == 0 && !shared_worklist_can_steal(q), "a new deque is not empty");
  for (long i = 0; i < skip; i++) { owner_op('p'); took(i & 1 ? shared_worklist_steal(q) : shared_worklist_try_pop(q), "take", pushed); }
  for (long i = 0; i < fill; i++) owner_op('p');
  mc_check(shared_worklist_size(q) == fill, "size is %zd, not %ld", shared_worklist_size(q), fill);
  if (skip) {   // leave the front end where the ring wraps
    for (long i = 0; i < skip / 2; i++) { took(shared_worklist_steal(q), "steal", pushed); owner_op('p'); }
    mc_check(shared_worklist_size(q) == fill, "size is %zd, not %ld", shared_worklist_size(q), fill);
  }
  pushes_ended = pushed;
  mc_sched_enable(1);
  pthread_t th[4];
  for (int i = 0; i < nth; i++) pthread_create(&th[i], NULL, thief, NULL);
  for (const char *s = prog; *s; s++) {
    int c = *s;
    if (c == '*') { c = alpha[mc_choose(strlen(alpha))]; mc_log("%c", c); }
    if (c == 'o') { mc_atomic_begin(); pending++; mc_atomic_end(); }
    if (c == 'o') {
      mc_atomic_begin(); long least = pushed; mc_atomic_end();
      struct gc_ref r = shared_worklist_try_pop(q);
      mc_atomic_begin(); pending--; took(r, "pop", least); mc_atomic_end();
    } else owner_op(c);
    mc_atomic_begin(); pushes_ended = pushed; mc_atomic_end();
  }
  for (int i = 0; i < nth; i++) pthread_join(th[i], NULL);
  mc_sched_enable(0);
  long left = pushed - done_takes;
  uint64_t h = mc_hash(left, 0);
  for (long i = pushed; i > 0 && i > pushed - 12; i--) h = mc_hash(h, taken[i]);
  mc_state(h);
  mc_check(shared_worklist_size(q) == left, "size is %zd with %ld items left", shared_worklist_size(q), left);
  mc_check(!!shared_worklist_can_steal(q) == (left > 0), "can_steal is wrong with %ld items left", left);
  int alt = 0;
  while (left--) {
    struct gc_ref r = (alt++ & 1) ? shared_worklist_steal(q) : shared_worklist_try_pop(q);
    mc_check(gc_ref_value(r), "%ld items were lost", left + 1);
    took(r, "drain", 0);
  }
  mc_check(!gc_ref_value(shared_worklist_try_pop(q)) && !gc_ref_value(shared_worklist_steal(q)), "an emptied deque yields an item");
  shared_worklist_release(q);
  owner_op('p'); owner_op('m');
  for (int i = 0; i < 4; i++) { struct gc_ref r = shared_worklist_try_pop(q); mc_check(gc_ref_value(r), "lost after release"); took(r, "pop", 0); }
  shared_worklist_destroy(q);
  mc_outcome(h);
}
