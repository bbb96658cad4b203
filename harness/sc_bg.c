// The background thread: every sequence of adding a task (of each priority), removing
// one, and a second passing; then two threads that do so while seconds pass at any time.
//   --opt part=seq depth=N     |    --opt part=conc t0=.. t1=..
//   a A z: add a task of priority middle, start, end;  r: remove the thread's latest
//   q: remove the oldest of the thread's;  ^: a second passes;  *: any of those
#include <stdio.h>
#include <time.h>
#include "mc.h"
#include "gc-assert.h"
#include "background-thread.h"
const char *mc_harness_name = "background-thread";
#define NT 24
static struct gc_background_thread *bg;
static const char *prog[2];
static struct { int prio, id, add0, add1, rem0, rem1; } t[NT];
static int nt, clk, started, stopped;
// the harness's own bookkeeping is not interleaved
#define QUIET __attribute__((noinline, no_sanitize("thread")))
QUIET static int moment(void) { return ++clk; }
QUIET static int next_task(void) { return nt < NT ? nt++ : -1; }
static struct { long when; int task, at; } ev[256];
static int nev;
static long now(void) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return ts.tv_sec * 1000000000l + ts.tv_nsec; }

QUIET static void run(void *data) {
  int i = (int)(uintptr_t)data;
  if (i < 0 || i >= nt) mc_fail("a task ran with data it was not given");
  if (!t[i].add0) mc_fail("task %d ran before it was added", i);
  if (t[i].rem1) mc_fail("task %d ran after it was removed", i);
  mc_log("<%d@%d> ", i, clk + 1);
  if (!started) mc_fail("task %d ran before the thread was started", i);
  if (stopped) mc_fail("task %d ran after the thread was destroyed", i);
  if (nev == 256) mc_fail("tasks run without end");
  ev[nev].when = now(); ev[nev].task = i; ev[nev++].at = moment();
}
static int own[2][NT], nown[2];
static const int prios[] = { -1000, GC_BACKGROUND_TASK_MIDDLE, GC_BACKGROUND_TASK_START, GC_BACKGROUND_TASK_END };
static void add(int me, int p) {
  int i = next_task();
  if (i < 0) return;
  t[i].prio = prios[p];
  t[i].add0 = moment();
  t[i].id = gc_background_thread_add_task(bg, prios[p], run, (void *)(uintptr_t)i);
  t[i].add1 = moment();
  mc_log("[%d added %d] ", i, clk);
  for (int j = 0; j < nt; j++) if (j != i && t[j].add1 && t[j].id == t[i].id) mc_fail("tasks %d and %d have the same id", i, j);
  if (i) own[me][nown[me]++] = i;
}
static void rem(int me, int first) {
  if (!nown[me]) return;
  int k = first ? 0 : nown[me] - 1, i = own[me][k];
  memmove(&own[me][k], &own[me][k + 1], sizeof(int) * (nown[me] - k - 1)); nown[me]--;
  t[i].rem0 = moment();
  gc_background_thread_remove_task(bg, t[i].id);
  t[i].rem1 = moment();
  mc_log("[%d removed %d] ", i, clk);
}
// Task 0, more urgent than the others and never removed, marks the start of each period.
static long start_time; static int spurious;
QUIET static void check_periods(int end) {
  long periods = 0;
  for (int a = 0; a < end; ) {
    int b = a; while (b < end && (b == a || ev[b].task)) b++;
    for (int x = a; x < b; x++) for (int y = x + 1; y < b; y++) {
      if (ev[x].task == ev[y].task) mc_fail("task %d ran twice in one period", ev[x].task);
      if (t[ev[x].task].prio > t[ev[y].task].prio) mc_fail("task %d of priority %d ran before task %d of priority %d", ev[x].task, t[ev[x].task].prio, ev[y].task, t[ev[y].task].prio);
    }
    for (int i = 0; i < nt; i++) {
      int ran = 0;
      for (int x = a; x < b; x++) ran |= ev[x].task == i;
      if (!ran && t[i].add1 && t[i].add1 < ev[a].at && (!t[i].rem0 || t[i].rem0 > ev[b - 1].at)) mc_fail("task %d (priority %d) did not run in a period", i, t[i].prio);
    }
    if (ev[a].task) mc_fail("task %d ran before a more urgent one", ev[a].task);
    if (!spurious && ev[a].when < start_time + periods++ * 990000000l) mc_fail("period %ld came after %ld ns", periods, ev[a].when - start_time);
    a = b;
  }
}
static void tick(void) {
  int before = nev;
  mc_tick();
  if (mc_opt("seq", 0) && started && nev == before) mc_fail("a second passed, but no task ran");
}
static void program(int me, const char *s) {
  for (; *s; s++) {
    char c = *s == '*' ? "aAzrq^"[mc_choose(6)] : *s;
    mc_log("%d:%c ", me, c);
    switch (c) {
    case 'a': add(me, 1); break;
    case 'A': add(me, 2); break;
    case 'z': add(me, 3); break;
    case 'r': rem(me, 0); break;
    case 'q': rem(me, 1); break;
    case '^': tick(); break;
    }
    if (!*prog[1] && mc_opt("seq", 0)) { check_periods(nev); uint64_t h = 0; for (int i = 0; i < nown[0]; i++) h = mc_hash(h, t[own[0][i]].prio); mc_state(mc_hash(h, nev)); mc_transition(); }
  }
}
static void *second(void *a) { program(1, prog[1]); return a; }
void mc_harness(void) {
  prog[0] = mc_optstr("t0", ""); prog[1] = mc_optstr("t1", "");
  mc_sched_enable(0);
  bg = gc_make_background_thread();
  add(0, 0);
  spurious = mc_opt("spur", 0);
  program(0, mc_optstr("pre", ""));       // before it is started
  if (mc_opt("early", 0)) mc_quiesce();
  pthread_t th;
  mc_sched_enable(1);
  started = 1; start_time = now();
  gc_background_thread_start(bg);
  if (*prog[1]) pthread_create(&th, NULL, second, NULL);
  program(0, prog[0]);
  if (*prog[1]) pthread_join(th, NULL);
  int n = nev;
  if (!mc_opt("hurry", 0)) { mc_quiesce(); tick(); tick(); if (nev == n) mc_fail("no task ran"); }
  gc_destroy_background_thread(bg);
  stopped = 1;
  check_periods(nev);
  uint64_t h = 0; for (int i = 0; i < nev; i++) h = mc_hash(h, ev[i].task);
  mc_outcome(h);
}
