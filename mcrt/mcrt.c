// mcrt runtime: see mc.h.
#define _GNU_SOURCE
#include "mc.h"

#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

#define MAXT 10
#define MAXDEV 512
#define LOGSZ 12288
#define NSAMPLES 5
#define STATEBITS (1u << 22)
#define POINTBITS (1u << 19)

void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_madvise(void *, size_t, int);
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
int __real_clock_gettime(clockid_t, struct timespec *);

// ---------------------------------------------------------------- shared state
struct dev { u32 idx; u16 chosen, n; };

struct violation {
  _Atomic int set;
  int ndevs;
  u32 total_choices;
  int bound;
  char msg[2048];
  char log[LOGSZ];
  struct dev devs[MAXDEV];
};

struct shm {
  _Atomic int active;
  _Atomic int stop;          // 1 violation, 2 deadline
  _Atomic int internal;      // abnormal child deaths
  _Atomic u64 executions, choices, points, transitions, truncated, crash_ok;
  _Atomic u64 forks;
  _Atomic u32 max_choices;
  _Atomic u64 classes[32];
  _Atomic u64 newpoints;
  _Atomic int table_full;
  char samples[NSAMPLES][LOGSZ];
  struct violation v;
  u32 states[STATEBITS / 32];
  u32 outcomes[STATEBITS / 32];
  u32 cur[POINTBITS / 32];      // current round's scheduling-point words
  u32 next[POINTBITS / 32];     // discovered for the next round
};
static struct shm *S;

// ------------------------------------------------------------------ parameters
static int jobs = 8, bound_max = 0, bound = 0, ticks_max = 0, faults_max = 0;
static int max_rounds = 4, use_hb = 1, hb_upto = 1, spurious_max = 0;
static int free_switch = 0, tso = 0, verbose = 0, all_points = 0;
static double time_limit = 60, cpu_limit = 10;
static u64 t_start_ns;
static struct { const char *name, *val; } opts[64];
static int nopts;
static const char *out_path, *replay_path;
static int replaying;
static struct dev rdevs[MAXDEV]; static int nrdevs;
static unsigned mmap_skew = 0;
static u64 max_execs;

int mc_exec_index;
int mc_inject_mmap, mc_inject_malloc, mc_inject_madvise, mc_inject_thread;
unsigned long mc_faults_taken;

long mc_opt(const char *name, long d) {
  for (int i = 0; i < nopts; i++) if (!strcmp(opts[i].name, name)) return strtol(opts[i].val, 0, 0);
  return d;
}
const char *mc_optstr(const char *name, const char *d) {
  for (int i = 0; i < nopts; i++) if (!strcmp(opts[i].name, name)) return opts[i].val;
  return d;
}
int mc_replaying(void) { return replaying; }

static u64 real_ns(void) {
  struct timespec ts; __real_clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

// ----------------------------------------------------------- per-process state
static struct dev devs[MAXDEV]; static int ndevs;
static u32 nchoices;
static u64 l_choices, l_points, l_transitions, l_forks;
static int has_slot = 1;             // whether this process was forked async
static char logbuf[LOGSZ]; static int loglen;
static int allow_crash;
static int budget, ticks_left, faults_left, spurious_left;
static int in_fail;

u64 mc_hash(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h ^= h >> 31; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 29;
  return h;
}
static void setbit(u32 *bm, u32 nbits, u64 h) {
  u32 i = (h * 0x9e3779b97f4a7c15ull) >> 40; i &= nbits - 1;
  u32 m = 1u << (i & 31);
  if (!(bm[i >> 5] & m)) __atomic_fetch_or(&bm[i >> 5], m, __ATOMIC_RELAXED);
}
void mc_state(u64 h) { setbit(S->states, STATEBITS, h); }
void mc_outcome(u64 h) { setbit(S->outcomes, STATEBITS, h); }
void mc_transition(void) { l_transitions++; }
static u32 pending_classes;
void mc_count(int i) { pending_classes |= 1u << (i & 31); }
void mc_allow_crash(int a) { allow_crash = a; }
int mc_crash_allowed(void) { return allow_crash; }

void mc_log(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt);
  int room = LOGSZ - 2 - loglen;
  if (room > 64) {
    int n = vsnprintf(logbuf + loglen, room, fmt, ap);
    if (n > room - 1) n = room - 1;
    loglen += n; logbuf[loglen++] = '\n'; logbuf[loglen] = 0;
  }
  va_end(ap);
}

static void flush_stats(void) {
  atomic_fetch_add(&S->choices, l_choices); atomic_fetch_add(&S->points, l_points);
  atomic_fetch_add(&S->transitions, l_transitions); atomic_fetch_add(&S->forks, l_forks);
  l_choices = l_points = l_transitions = l_forks = 0;
  u32 m = atomic_load(&S->max_choices);
  while (m < nchoices && !atomic_compare_exchange_weak(&S->max_choices, &m, nchoices));
}

static void end_process(void) __attribute__((noreturn));
static void end_process(void) {
  flush_stats();
  atomic_fetch_sub(&S->active, 1);
  for (;;) {
    int st;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) { if (errno == EINTR) continue; break; }
    if (!WIFEXITED(st)) { atomic_fetch_add(&S->internal, 1); atomic_fetch_sub(&S->active, 1); }
  }
  _exit(0);
}

static void end_leaf(void) __attribute__((noreturn));
static void end_leaf(void) {
  u64 n = atomic_fetch_add(&S->executions, 1) + 1;
  for (int i = 0; i < 32; i++) if (pending_classes & (1u << i)) atomic_fetch_add(&S->classes[i], 1);
  static const u64 pick[NSAMPLES] = { 1, 11, 137, 1571, 17011 };
  for (int i = 0; i < NSAMPLES; i++) if (n == pick[i]) memcpy(S->samples[i], logbuf, loglen + 1);
  if (max_execs && n >= max_execs && !atomic_load(&S->stop)) { atomic_store(&S->stop, 2); atomic_fetch_add(&S->truncated, 1); }
  end_process();
}
void mc_done(void) { end_leaf(); }

static void report(const char *msg) {
  int z = 0;
  if (atomic_compare_exchange_strong(&S->v.set, &z, 1)) {
    snprintf(S->v.msg, sizeof S->v.msg, "%s", msg);
    memcpy(S->v.log, logbuf, loglen + 1);
    memcpy(S->v.devs, devs, sizeof devs[0] * ndevs);
    S->v.ndevs = ndevs; S->v.total_choices = nchoices; S->v.bound = bound;
    atomic_store(&S->v.set, 2);
    atomic_store(&S->stop, 1);
  }
}
void mc_fail(const char *fmt, ...) {
  char b[2048]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (!in_fail) { in_fail = 1; report(b); }
  end_process();
}

// --------------------------------------------------------------------- choices
static void child_timer(void) {
  struct itimerval it = {{0, 0}, {(long)cpu_limit, (long)((cpu_limit - (long)cpu_limit) * 1e6)}};
  setitimer(ITIMER_PROF, &it, NULL);
}
static void note_dev(u32 idx, int chosen, int n) {
  if (ndevs < MAXDEV) devs[ndevs++] = (struct dev){ idx, chosen, n };
}

static int choose_here(int n) {
  u32 idx = nchoices++;
  l_choices++;
  if (replaying) {
    for (int i = 0; i < nrdevs; i++)
      if (rdevs[i].idx == idx) {
        int c = rdevs[i].chosen;
        if (rdevs[i].n != n) fprintf(stderr, "replay: choice %u had %d alternatives, now %d\n", idx, rdevs[i].n, n);
        if (c >= n) c = n - 1;
        note_dev(idx, c, n);
        return c;
      }
    return 0;
  }
  int stop = atomic_load_explicit(&S->stop, memory_order_relaxed);
  if (!stop && real_ns() - t_start_ns > (u64)(time_limit * 1e9)) {
    atomic_store(&S->stop, 2); stop = 2;
  }
  if (stop) { if (stop == 2) atomic_fetch_add(&S->truncated, 1); end_process(); }
  for (int c = 1; c < n; c++) {
    int async = 0;
    int a = atomic_load(&S->active);
    while (a < jobs && !async) async = atomic_compare_exchange_weak(&S->active, &a, a + 1);
    l_forks++;
    pid_t pid = fork();
    if (pid < 0) {
      // out of processes or memory: give up exhaustiveness, not correctness
      if (async) atomic_fetch_sub(&S->active, 1);
      atomic_fetch_add(&S->truncated, 1);
      continue;
    }
    if (pid == 0) {
      l_choices = l_points = l_transitions = l_forks = 0;
      child_timer();
      note_dev(idx, c, n);
      return c;
    }
    if (!async) {
      int st;
      while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
      if (!WIFEXITED(st)) atomic_fetch_add(&S->internal, 1);
      else atomic_fetch_add(&S->active, 1);
      if (atomic_load(&S->stop)) { if (S->stop == 2) atomic_fetch_add(&S->truncated, 1); end_process(); }
    }
  }
  return 0;
}
// A choice runs on a stack of its own, so that what it leaves behind on the stack of
// the chooser -- which a conservative collector will read -- is the same whichever
// way the choice is made, when exploring and when replaying.
__asm__(
".text\n.globl mcrt_onstack\n.type mcrt_onstack,@function\nmcrt_onstack:\n"
"  pushq %rbp\n movq %rsp,%rbp\n movq %rdx,%rsp\n movl %esi,%eax\n movq %rdi,%rsi\n movl %eax,%edi\n"
"  call *%rsi\n movq %rbp,%rsp\n popq %rbp\n ret\n"
".size mcrt_onstack,.-mcrt_onstack\n");
extern int mcrt_onstack(int (*f)(int), int arg, void *stack_top);
static char choice_stack[1 << 16] __attribute__((aligned(64)));
static int choose_raw(int n) {
  if (n <= 1) return 0;
  return mcrt_onstack(choose_here, n, choice_stack + sizeof choice_stack);
}
int mc_choose(int n) { return choose_raw(n); }
int mc_fault(int n) {
  if (faults_left <= 0) return 0;
  int c = choose_raw(n);
  if (c) { faults_left--; mc_faults_taken++; }
  return c;
}

// --------------------------------------------------------------------- threads
enum tstate { T_FREE, T_RUN, T_MUTEX, T_COND, T_JOIN, T_SLEEP, T_SEM, T_BARRIER, T_RD, T_WR, T_QUIESCE, T_DONE };
struct vt {
  enum tstate st;
  void *sp;
  char *stk_lo, *stk_hi;
  void *(*fn)(void *); void *arg, *ret;
  void *obj;              // what we wait for
  void *obj2;             // mutex of a cond wait
  int timed; u64 deadline; int timedout; int signalled;
  int yielded; u64 yield_writes;
  int joined, detached;
  void *specific[16];
};
static struct vt T[MAXT];
static int nT = 1, cur = 0;
static u64 now_ns = 1000000000000ull;
static u64 g_writes, g_idle_writes; static int idle_rounds;
static int atomic_depth, sched_on = 1, free_ticks = 8;
static u64 steps;

int mc_self(void) { return cur; }
void mc_atomic_begin(void) { atomic_depth++; }
void mc_atomic_end(void) { atomic_depth--; }
void mc_sched_enable(int on) { sched_on = on; }

__asm__(
".text\n.globl mcrt_switch\n.type mcrt_switch,@function\nmcrt_switch:\n"
"  pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
"  movq %rsp,(%rdi)\n  movq %rsi,%rsp\n"
"  popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n  ret\n"
".size mcrt_switch,.-mcrt_switch\n");
extern void mcrt_switch(void **save, void *to);

static void switch_to(int t) {
  if (t == cur) return;
  int old = cur;
  if (verbose) fprintf(stderr, "[switch t%d -> t%d at choice %u]\n", old, t, nchoices);
  cur = t;
  mcrt_switch(&T[old].sp, T[t].sp);
}

// mutex representation, inside the caller's pthread_mutex_t
struct vmutex { int owner; int kind; int rec; int magic; };   // owner: id+1
struct vrw { int writer; int readers; };
struct vsem { int count; };
struct vbarrier { unsigned count, waiting, gen; };

static int enabled(int i) {
  struct vt *t = &T[i];
  switch (t->st) {
  case T_RUN: return 1;
  case T_MUTEX: return ((struct vmutex *)t->obj)->owner == 0;
  case T_COND: return (t->signalled || t->timedout) && ((struct vmutex *)t->obj2)->owner == 0;
  case T_JOIN: return T[(long)t->obj].st == T_DONE;
  case T_SLEEP: return t->deadline <= now_ns;
  case T_SEM: return ((struct vsem *)t->obj)->count > 0 || t->timedout;
  case T_BARRIER: return t->signalled;
  case T_RD: return ((struct vrw *)t->obj)->writer == 0;
  case T_WR: return ((struct vrw *)t->obj)->writer == 0 && ((struct vrw *)t->obj)->readers == 0;
  default: return 0;
  }
}
static int is_timed(int i) {
  return T[i].st == T_SLEEP || (T[i].timed && !T[i].timedout && !T[i].signalled &&
                                (T[i].st == T_COND || T[i].st == T_SEM));
}
static const char *stname(enum tstate s) {
  static const char *n[] = { "free", "running", "mutex", "cond", "join", "sleep", "sem", "barrier", "rdlock", "wrlock", "quiesce", "done" };
  return n[s];
}
static void describe_threads(char *b, size_t n) {
  int k = 0; b[0] = 0;
  for (int i = 0; i < nT && k < (int)n - 80; i++)
    k += snprintf(b + k, n - k, " t%d:%s", i, stname(T[i].st));
}
static int hang_ok;
void mc_note_hang_ok(int ok) { hang_ok = ok; }
static void deadlock(const char *what) {
  char b[600]; describe_threads(b, sizeof b);
  if (hang_ok) end_leaf();
  mc_fail("%s:%s", what, b);
}

static void fire_timer(int i) {
  if (T[i].deadline > now_ns) now_ns = T[i].deadline;
  if (T[i].st != T_SLEEP) T[i].timedout = 1;
}
static int earliest_timer(void) {
  int best = -1;
  for (int i = 0; i < nT; i++)
    if (is_timed(i) && !enabled(i) && (best < 0 || T[i].deadline < T[best].deadline)) best = i;
  return best;
}

// Pick who runs next when the current thread cannot or should not continue.
static void reschedule(void) {
  for (;;) {
    int cand[MAXT], n = 0, nen = 0;
    for (int k = 1; k <= nT; k++) {
      int i = (cur + k) % nT;
      if (!enabled(i)) continue;
      nen++;
      if (!T[i].yielded) cand[n++] = i;
    }
    if (!nen) {
      // a quiescing thread resumes when nobody else can run
      for (int i = 0; i < nT; i++) if (T[i].st == T_QUIESCE) { T[i].st = T_RUN; switch_to(i); return; }
      int t = earliest_timer();
      if (t < 0) deadlock("deadlock: no thread can run");
      if (T[t].st != T_SLEEP && free_ticks-- <= 0) deadlock("deadlock: every thread is blocked (only timers fire)");
      fire_timer(t);
      continue;
    }
    if (!n) {
      // everyone enabled is spinning
      for (int i = 0; i < nT; i++) if (T[i].st == T_QUIESCE) {
        if (idle_rounds > 100) { T[i].st = T_RUN; idle_rounds = 0; switch_to(i); return; } }
      if (g_writes == g_idle_writes) idle_rounds++; else idle_rounds = 0;
      g_idle_writes = g_writes;
      if (idle_rounds > 3000) {
        int t = earliest_timer();
        if (t >= 0 && (T[t].st == T_SLEEP || free_ticks-- > 0)) { fire_timer(t); idle_rounds = 0; continue; }
        deadlock("livelock: every runnable thread is spinning");
      }
      for (int i = 0; i < nT; i++) T[i].yielded = 0;
      continue;
    }
    int c = 0;
    if (n > 1 && sched_on && !atomic_depth && (free_switch || budget > 0)) {
      c = choose_raw(n);
      if (c && !free_switch) budget--;
    }
    T[cand[c]].yielded = 0;
    switch_to(cand[c]);
    return;
  }
}

static void sched_point(void) {
  if (atomic_depth || !sched_on) return;
  l_points++;
  if (++steps > 20000000ull) mc_fail("livelock: step horizon reached");
  if (budget <= 0 && ticks_left <= 0) return;
  int alt[2 * MAXT], n = 1, ntimer = 0;
  alt[0] = cur;
  if (budget > 0)
    for (int k = 1; k < nT; k++) {
      int i = (cur + k) % nT;
      if (enabled(i) && (!T[i].yielded || g_writes > T[i].yield_writes)) alt[n++] = i;
    }
  int nthreads = n;
  if (ticks_left > 0)
    for (int i = 0; i < nT; i++)
      if (i != cur && is_timed(i) && T[i].st == T_COND && ((struct vmutex *)T[i].obj2)->owner == 0) { alt[n++] = i; ntimer++; }
  if (n == 1) return;
  int c = choose_raw(n);
  if (!c) return;
  if (c < nthreads) budget--; else { ticks_left--; fire_timer(alt[c]); }
  T[alt[c]].yielded = 0;
  switch_to(alt[c]);
}
void mc_point(void) { sched_point(); }

static void do_yield(void) {
  T[cur].yielded = 1; T[cur].yield_writes = g_writes;
  if (++steps > 20000000ull) mc_fail("livelock: step horizon reached");
  reschedule();
}

void mc_quiesce(void) {
  T[cur].st = T_QUIESCE;
  int so = sched_on;
  reschedule();
  sched_on = so;
  T[cur].st = T_RUN;
}
void mc_tick(void) {
  mc_quiesce();            // whoever is to be woken by time is waiting for it
  u64 target = now_ns + 1000000000ull;
  for (;;) {
    int t = -1;
    for (int i = 0; i < nT; i++)
      if (i != cur && is_timed(i) && !enabled(i) && T[i].deadline <= target && (t < 0 || T[i].deadline < T[t].deadline)) t = i;
    if (t < 0) break;
    fire_timer(t);
    mc_quiesce();
  }
  now_ns = target;
}

// ------------------------------------------------------------------ happens-before
struct cell { u64 key; u32 wclk; u8 wtid, wat, rat; u32 r[MAXT]; };
#define CELLS (1u << 20)
static struct cell *cells; static u32 ncells;
static u32 clk[MAXT];
static u32 vcM[MAXT][MAXT], vcF[MAXT][MAXT];
struct svc { u64 key; u32 m[MAXT], f[MAXT]; };
#define SVCS (1u << 16)
static struct svc *svcs; static u32 nsvcs;
static int hb_on;

static struct cell *cell_get(u64 key) {
  u32 h = (key ^ (key >> 17) * 31) & (CELLS - 1);
  for (u32 k = 0; k < 256; k++) {
    struct cell *c = &cells[(h + k) & (CELLS - 1)];
    if (c->key == key) return c;
    if (!c->key) {
      c->key = key; c->wtid = 255;
      return c;
    }
  }
  atomic_store(&S->table_full, 1);
  return NULL;
}
static struct svc *svc_get(u64 key) {
  u32 h = (key ^ (key >> 11) * 131) & (SVCS - 1);
  for (u32 k = 0; k < SVCS; k++) {
    struct svc *c = &svcs[(h + k) & (SVCS - 1)];
    if (c->key == key) return c;
    if (!c->key) { if (++nsvcs > SVCS * 3 / 4) { hb_on = 0; atomic_store(&S->table_full, 1); } c->key = key; return c; }
  }
  return &svcs[0];
}
static inline u32 point_bit(u64 key) { return ((key * 0x9e3779b97f4a7c15ull) >> 30) & (POINTBITS - 1); }
static inline int is_point(u64 key) {
  if (all_points) return 1;
  u32 b = point_bit(key);
  return (S->cur[b >> 5] >> (b & 31)) & 1;
}
static void add_point(u64 key) {
  u32 b = point_bit(key);
  if (!((S->cur[b >> 5] >> (b & 31)) & 1) && !((S->next[b >> 5] >> (b & 31)) & 1)) {
    u32 o = __atomic_fetch_or(&S->next[b >> 5], 1u << (b & 31), __ATOMIC_RELAXED);
    if (!((o >> (b & 31)) & 1)) {
      atomic_fetch_add(&S->newpoints, 1);
      if (getenv("MC_SHOWPOINTS")) {
        fprintf(stderr, "point %#lx\n", (unsigned long)(key << 3));
        void *bt[8]; int n = backtrace(bt, 8);
        for (int i = 1; i < n; i++) fprintf(stderr, "   %p", bt[i]);
        fprintf(stderr, "\n");
      }
    }
  }
}
void mc_track(void *a, size_t n) {
  for (u64 k = (u64)a >> 3; k <= ((u64)a + n - 1) >> 3; k++) {
    u32 b = point_bit(k);
    __atomic_fetch_or(&S->cur[b >> 5], 1u << (b & 31), __ATOMIC_RELAXED);
    __atomic_fetch_or(&S->next[b >> 5], 1u << (b & 31), __ATOMIC_RELAXED);
  }
}
static void hb_access(u64 key, int write, int at) {
  struct cell *c = cell_get(key);
  if (!c) return;
  int race = 0;
  if (c->wtid != 255 && c->wtid != cur) {
    u32 *v = (at && c->wat) ? vcM[cur] : vcF[cur];
    if (v[c->wtid] < c->wclk) race = 1;
  }
  if (write)
    for (int i = 0; i < nT; i++)
      if (i != cur && c->r[i]) {
        u32 *v = (at && ((c->rat >> (i & 7)) & 1)) ? vcM[cur] : vcF[cur];
        if (v[i] < c->r[i]) { race = 1; break; }
      }
  if (race) add_point(key);
  if (write) { c->wtid = cur; c->wclk = clk[cur]; c->wat = at; }
  else { c->r[cur] = clk[cur]; if (at) c->rat |= 1 << (cur & 7); else c->rat &= ~(1 << (cur & 7)); }
}
static void hb_acquire(u64 key, int full_only) {
  struct svc *s = svc_get(key);
  for (int i = 0; i < nT; i++) {
    if (s->f[i] > vcF[cur][i]) vcF[cur][i] = s->f[i];
    if (!full_only && s->m[i] > vcM[cur][i]) vcM[cur][i] = s->m[i];
  }
}
static void hb_release(u64 key, int full_only, int merge) {
  struct svc *s = svc_get(key);
  vcF[cur][cur] = vcM[cur][cur] = clk[cur];
  for (int i = 0; i < nT; i++) {
    if (merge) { if (vcF[cur][i] > s->f[i]) s->f[i] = vcF[cur][i]; }
    else s->f[i] = vcF[cur][i];
    if (!full_only) s->m[i] = vcM[cur][i];
  }
  clk[cur]++;
}

static inline int own_stack(u64 a) {
  return a >= (u64)T[cur].stk_lo && a < (u64)T[cur].stk_hi;
}
static inline void access_hook(void *p, int write, int at, int size) {
  u64 a = (u64)p;
  if (own_stack(a)) return;
  if (nT == 1) { if (write) g_writes++; return; }
  u64 k = a >> 3;
  if (is_point(k)) sched_point();
  if (write) g_writes++;
  if (hb_on && !atomic_depth) {
    hb_access(k, write, at);
    if (size > 8) hb_access(k + 1, write, at);
  }
}

// ------------------------------------------------------------------ TSAN hooks
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) {}
void __tsan_func_exit(void) {}
#define RW(n) \
  void __tsan_read##n(void *a) { access_hook(a, 0, 0, n); } \
  void __tsan_write##n(void *a) { access_hook(a, 1, 0, n); } \
  void __tsan_unaligned_read##n(void *a) { access_hook(a, 0, 0, n); } \
  void __tsan_unaligned_write##n(void *a) { access_hook(a, 1, 0, n); } \
  void __tsan_volatile_read##n(void *a) { access_hook(a, 0, 0, n); } \
  void __tsan_volatile_write##n(void *a) { access_hook(a, 1, 0, n); } \
  void __tsan_read##n##_pc(void *a, void *pc) { access_hook(a, 0, 0, n); } \
  void __tsan_write##n##_pc(void *a, void *pc) { access_hook(a, 1, 0, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { for (size_t i = 0; i < n; i += 8) access_hook((char *)a + i, 0, 0, 8); }
void __tsan_write_range(void *a, size_t n) { for (size_t i = 0; i < n; i += 8) access_hook((char *)a + i, 1, 0, 8); }
void __tsan_vptr_update(void **a, void *b) {}
void __tsan_vptr_read(void **a) {}

#define ACQ(o) ((o) == __ATOMIC_ACQUIRE || (o) == __ATOMIC_CONSUME || (o) == __ATOMIC_ACQ_REL || (o) == __ATOMIC_SEQ_CST)
#define REL(o) ((o) == __ATOMIC_RELEASE || (o) == __ATOMIC_ACQ_REL || (o) == __ATOMIC_SEQ_CST)

// Store buffers (TSO mode): FIFO per thread of (addr, size, value).
struct sbent { void *a; int size; u64 v; };
#define SBMAX 16
static struct sbent sb[MAXT][SBMAX]; static int sbn[MAXT];
static void sb_write(struct sbent *e) {
  switch (e->size) {
  case 1: *(volatile u8 *)e->a = e->v; break;
  case 2: *(volatile u16 *)e->a = e->v; break;
  case 4: *(volatile u32 *)e->a = e->v; break;
  default: *(volatile u64 *)e->a = e->v;
  }
}
static void sb_flush_one(int t) {
  sb_write(&sb[t][0]);
  memmove(&sb[t][0], &sb[t][1], sizeof(sb[t][0]) * --sbn[t]);
}
static void sb_flush(int t) { while (sbn[t]) sb_flush_one(t); }
static int sb_lookup(void *a, int size, u64 *v) {
  for (int i = sbn[cur] - 1; i >= 0; i--)
    if (sb[cur][i].a == a && sb[cur][i].size == size) { *v = sb[cur][i].v; return 1; }
  return 0;
}
// Before any shared operation in TSO mode: memory may or may not have drained
// the oldest entries of any thread's buffer.
static void tso_point(void) {
  if (!tso || atomic_depth) return;
  for (int t = 0; t < nT; t++)
    while (sbn[t]) {
      // 0: drain now (default); 1: keep it buffered (costs budget)
      if (budget <= 0) { sb_flush_one(t); continue; }
      if (choose_raw(2)) { budget--; break; }
      sb_flush_one(t);
    }
}
static void tso_drain_self(void) { if (tso) sb_flush(cur); }

#define ATOMICS(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type *a, int o) { \
    access_hook((void *)a, 0, 1, bits / 8); \
    if (tso) { u64 v; tso_point(); if (sb_lookup((void *)a, bits / 8, &v)) return (type)v; } \
    if (hb_on && nT > 1 && ACQ(o)) hb_acquire((u64)a, 1); \
    return *a; } \
  void __tsan_atomic##bits##_store(volatile type *a, type v, int o) { \
    access_hook((void *)a, 1, 1, bits / 8); \
    if (hb_on && nT > 1) { if (REL(o)) hb_release((u64)a, 1, 0); } \
    if (tso && !own_stack((u64)a)) { tso_point(); \
      if (o == __ATOMIC_SEQ_CST) { sb_flush(cur); *a = v; return; } \
      if (sbn[cur] == SBMAX) sb_flush_one(cur); \
      sb[cur][sbn[cur]++] = (struct sbent){ (void *)a, bits / 8, (u64)v }; return; } \
    *a = v; } \
  type __tsan_atomic##bits##_exchange(volatile type *a, type v, int o) { PRE_RMW; type r = *a; *a = v; return r; } \
  type __tsan_atomic##bits##_fetch_add(volatile type *a, type v, int o) { PRE_RMW; type r = *a; *a = r + v; return r; } \
  type __tsan_atomic##bits##_fetch_sub(volatile type *a, type v, int o) { PRE_RMW; type r = *a; *a = r - v; return r; } \
  type __tsan_atomic##bits##_fetch_and(volatile type *a, type v, int o) { PRE_RMW; type r = *a; *a = r & v; return r; } \
  type __tsan_atomic##bits##_fetch_or(volatile type *a, type v, int o) { PRE_RMW; type r = *a; *a = r | v; return r; } \
  type __tsan_atomic##bits##_fetch_xor(volatile type *a, type v, int o) { PRE_RMW; type r = *a; *a = r ^ v; return r; } \
  type __tsan_atomic##bits##_fetch_nand(volatile type *a, type v, int o) { PRE_RMW; type r = *a; *a = ~(r & v); return r; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *e, type v, int o, int fo) { \
    PRE_RMW; type r = *a; if (r == *e) { *a = v; return 1; } *e = r; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *e, type v, int o, int fo) { \
    PRE_RMW; type r = *a; if (r == *e) { *a = v; return 1; } *e = r; return 0; } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type *a, type e, type v, int o, int fo) { \
    PRE_RMW; type r = *a; if (r == e) *a = v; return r; }
#define PRE_RMW do { access_hook((void *)a, 1, 1, sizeof *a); \
    if (tso) { tso_point(); sb_flush(cur); } \
    if (hb_on && nT > 1) { if (ACQ(o)) hb_acquire((u64)a, 1); if (REL(o)) hb_release((u64)a, 1, 1); } } while (0)
ATOMICS(8, u8) ATOMICS(16, u16) ATOMICS(32, u32) ATOMICS(64, u64)
void __tsan_atomic_thread_fence(int o) {
  if (tso) { tso_point(); if (o == __ATOMIC_SEQ_CST) sb_flush(cur); }
}
void __tsan_atomic_signal_fence(int o) {}

// ------------------------------------------------------------------ pthread wraps
static void sync_touch(void *m) {
  // a lock is a scheduling point once two threads use it
  u64 k = (u64)m >> 3;
  if (nT > 1) {
    if (is_point(k)) sched_point();
    if (hb_on && !atomic_depth) {
      struct cell *c = cell_get(k);
      if (c) { if (c->wtid != 255 && c->wtid != cur) add_point(k); c->wtid = cur; c->wclk = 0; }
    }
  }
  g_writes++;
}

int __wrap_pthread_mutex_init(pthread_mutex_t *m, const void *a) { memset(m, 0, sizeof *m); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
static void check_mutex(struct vmutex *m, const char *op) {
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *mm) {
  struct vmutex *m = (void *)mm; tso_drain_self();
  sync_touch(m);
  while (m->owner) {
    if (m->owner == cur + 1) {
      // default (normal) mutexes self-deadlock
      T[cur].st = T_MUTEX; T[cur].obj = m; reschedule(); T[cur].st = T_RUN; continue;
    }
    T[cur].st = T_MUTEX; T[cur].obj = m;
    reschedule();
    T[cur].st = T_RUN;
  }
  m->owner = cur + 1;
  if (hb_on) hb_acquire((u64)m, 0);
  return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *mm) {
  struct vmutex *m = (void *)mm; tso_drain_self();
  sync_touch(m);
  if (m->owner) return EBUSY;
  m->owner = cur + 1;
  if (hb_on) hb_acquire((u64)m, 0);
  return 0;
}
static int lets_go(void *m) {
  for (int i = 0; i < nT; i++)
    if (i != cur && ((T[i].st == T_MUTEX && T[i].obj == m) || (T[i].st == T_COND && T[i].obj2 == m && (T[i].signalled || T[i].timedout)))) return 1;
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *mm) {
  struct vmutex *m = (void *)mm; tso_drain_self();
  // Whippet hands worker locks from one collecting thread to the next.
  if (!m->owner) mc_fail("mutex unlocked by thread %d which is not locked", cur);
  if (hb_on) hb_release((u64)m, 0, 0);
  m->owner = 0; g_writes++;
  // An unlock is followed by the owner's next operation; preempting here is
  // preempting before that operation.  Letting a blocked thread continue is
  // always a point: a thread that never ran has shown no conflicts yet.
  if (nT > 1 && (is_point((u64)m >> 3) || lets_go(m))) sched_point();
  return 0;
}
int __wrap_pthread_mutex_timedlock(pthread_mutex_t *mm, const struct timespec *ts) { return __wrap_pthread_mutex_lock(mm); }

int __wrap_pthread_cond_init(pthread_cond_t *c, const void *a) { memset(c, 0, sizeof *c); return 0; }
int __wrap_pthread_cond_destroy(pthread_cond_t *c) { return 0; }
static int cond_wait(void *c, pthread_mutex_t *mm, int timed, u64 deadline) {
  struct vmutex *m = (void *)mm; tso_drain_self();
  if (m->owner != cur + 1) mc_fail("condition wait by thread %d without holding the mutex", cur);
  if (hb_on) hb_release((u64)m, 0, 0);
  m->owner = 0; g_writes++;
  struct vt *t = &T[cur];
  t->st = T_COND; t->obj = c; t->obj2 = m; t->timed = timed; t->deadline = deadline;
  t->timedout = t->signalled = 0;
  if (spurious_left > 0 && sched_on && !atomic_depth && choose_raw(2)) { spurious_left--; t->signalled = 1; }
  reschedule();
  int to = t->timedout && !t->signalled;
  t->st = T_RUN; t->timed = 0;
  while (m->owner) { t->st = T_MUTEX; t->obj = m; reschedule(); t->st = T_RUN; }
  m->owner = cur + 1;
  if (hb_on) hb_acquire((u64)m, 0);
  return to ? ETIMEDOUT : 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, 0, 0); }
int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
  return cond_wait(c, m, 1, ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int __wrap_pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *ts) {
  return cond_wait(c, m, 1, ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) {
  tso_drain_self(); sync_touch(c);
  int cand[MAXT], n = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].st == T_COND && T[i].obj == c && !T[i].signalled && !T[i].timedout) cand[n++] = i;
  if (!n) return 0;
  int k = 0;
  if (n > 1 && sched_on && !atomic_depth && budget > 0) { k = choose_raw(n); if (k) budget--; }
  T[cand[k]].signalled = 1;
  if (enabled(cand[k])) sched_point();
  return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) {
  tso_drain_self(); sync_touch(c);
  int go = 0;
  for (int i = 0; i < nT; i++)
    if (T[i].st == T_COND && T[i].obj == c) { T[i].signalled = 1; if (enabled(i)) go = 1; }
  if (go) sched_point();
  return 0;
}

#define STKSZ (512 * 1024)
static char *stack_next = (char *)0x200000000000ull;
static void alloc_stack(int i) {
  char *p = __real_mmap(stack_next, STKSZ + 4096, PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { fprintf(stderr, "mcrt: stack\n"); _exit(3); }
  mprotect(p, 4096, PROT_NONE);
  stack_next += STKSZ + 4096 + 65536;
  T[i].stk_lo = p + 4096; T[i].stk_hi = p + 4096 + STKSZ;
}
static void thread_exit(void *ret) __attribute__((noreturn));
static void thread_exit(void *ret) {
  T[cur].ret = ret; T[cur].st = T_DONE; g_writes++;
  tso_drain_self();
  if (hb_on) hb_release(0x10000 + cur, 0, 0);
  reschedule();
  abort();
}
static void thread_main(void) {
  struct vt *t = &T[cur];
  thread_exit(t->fn(t->arg));
}
static void prepare_thread(int i) {
  alloc_stack(i);
  void **sp = (void **)(T[i].stk_hi - 64);
  *--sp = 0;                       // fake return address: keeps alignment
  *--sp = (void *)thread_main;
  for (int k = 0; k < 6; k++) *--sp = 0;
  T[i].sp = sp;
}
int __wrap_pthread_create(pthread_t *th, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  if (mc_inject_thread && mc_fault(2)) return EAGAIN;
  if (nT == MAXT) { fprintf(stderr, "mcrt: too many threads\n"); mc_fail("internal: too many threads"); }
  int i = nT;
  prepare_thread(i);
  T[i].fn = fn; T[i].arg = arg; T[i].st = T_RUN;
  clk[i] = 1;
  if (hb_on) {
    vcM[cur][cur] = vcF[cur][cur] = clk[cur];
    memcpy(vcM[i], vcM[cur], sizeof vcM[i]); memcpy(vcF[i], vcF[cur], sizeof vcF[i]);
    clk[cur]++;
  }
  nT++;
  g_writes++;
  *th = (pthread_t)(i + 1);
  sched_point();
  return 0;
}
int __wrap_pthread_join(pthread_t th, void **ret) {
  long i = (long)th - 1;
  if (i < 0 || i >= nT || T[i].joined) return ESRCH;
  sync_touch((void *)(0x20000 + 64 * i));
  while (T[i].st != T_DONE) {
    T[cur].st = T_JOIN; T[cur].obj = (void *)i; reschedule(); T[cur].st = T_RUN;
  }
  T[i].joined = 1;
  if (hb_on) hb_acquire(0x10000 + i, 0);
  if (ret) *ret = T[i].ret;
  return 0;
}
int __wrap_pthread_detach(pthread_t th) { return 0; }
void __wrap_pthread_exit(void *r) { thread_exit(r); }
pthread_t __wrap_pthread_self(void) { return (pthread_t)(cur + 1); }
int __wrap_pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int __wrap_pthread_getattr_np(pthread_t th, pthread_attr_t *a) {
  memset(a, 0, sizeof *a); *(long *)a = (long)th; return 0;
}
int __wrap_pthread_attr_init(pthread_attr_t *a) { memset(a, 0, sizeof *a); *(long *)a = cur + 1; return 0; }
int __wrap_pthread_attr_destroy(pthread_attr_t *a) { return 0; }
int __wrap_pthread_attr_getstack(const pthread_attr_t *a, void **lo, size_t *sz) {
  long i = *(long *)a - 1;
  *lo = T[i].stk_lo; *sz = T[i].stk_hi - T[i].stk_lo; return 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  if (*(int *)o == 0) { *(int *)o = 1; f(); } return 0;
}
static unsigned nkeys;
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *)) { *k = nkeys++; return nkeys > 16 ? EAGAIN : 0; }
void *__wrap_pthread_getspecific(pthread_key_t k) { return T[cur].specific[k]; }
int __wrap_pthread_setspecific(pthread_key_t k, const void *v) { T[cur].specific[k] = (void *)v; return 0; }

int __wrap_pthread_rwlock_init(pthread_rwlock_t *l, const void *a) { memset(l, 0, sizeof *l); return 0; }
int __wrap_pthread_rwlock_destroy(pthread_rwlock_t *l) { return 0; }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *ll) {
  struct vrw *l = (void *)ll; sync_touch(l);
  while (l->writer) { T[cur].st = T_RD; T[cur].obj = l; reschedule(); T[cur].st = T_RUN; }
  l->readers++; if (hb_on) hb_acquire((u64)l, 0); return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *ll) {
  struct vrw *l = (void *)ll; sync_touch(l);
  while (l->writer || l->readers) { T[cur].st = T_WR; T[cur].obj = l; reschedule(); T[cur].st = T_RUN; }
  l->writer = cur + 1; if (hb_on) hb_acquire((u64)l, 0); return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *ll) {
  struct vrw *l = (void *)ll; if (hb_on) hb_release((u64)l, 0, 0);
  if (l->writer == cur + 1) l->writer = 0; else if (l->readers) l->readers--;
  g_writes++; return 0;
}
int __wrap_pthread_spin_init(pthread_spinlock_t *l, int s) { *l = 0; return 0; }
int __wrap_pthread_spin_destroy(pthread_spinlock_t *l) { return 0; }
int __wrap_pthread_spin_lock(pthread_spinlock_t *l) {
  sync_touch((void *)l);
  while (*(volatile int *)l) do_yield();
  *(volatile int *)l = cur + 1; if (hb_on) hb_acquire((u64)l, 0); return 0;
}
int __wrap_pthread_spin_trylock(pthread_spinlock_t *l) {
  sync_touch((void *)l); if (*(volatile int *)l) return EBUSY;
  *(volatile int *)l = cur + 1; if (hb_on) hb_acquire((u64)l, 0); return 0;
}
int __wrap_pthread_spin_unlock(pthread_spinlock_t *l) {
  if (hb_on) hb_release((u64)l, 0, 0); *(volatile int *)l = 0; g_writes++; return 0;
}
int __wrap_sem_init(sem_t *s, int sh, unsigned v) { memset(s, 0, sizeof *s); ((struct vsem *)s)->count = v; return 0; }
int __wrap_sem_destroy(sem_t *s) { return 0; }
int __wrap_sem_post(sem_t *s) { sync_touch(s); if (hb_on) hb_release((u64)s, 0, 1); ((struct vsem *)s)->count++; return 0; }
int __wrap_sem_wait(sem_t *s) {
  sync_touch(s);
  while (((struct vsem *)s)->count <= 0) { T[cur].st = T_SEM; T[cur].timed = 0; T[cur].obj = s; reschedule(); T[cur].st = T_RUN; }
  ((struct vsem *)s)->count--; if (hb_on) hb_acquire((u64)s, 0); return 0;
}
int __wrap_sem_trywait(sem_t *s) {
  sync_touch(s); if (((struct vsem *)s)->count <= 0) { errno = EAGAIN; return -1; }
  ((struct vsem *)s)->count--; if (hb_on) hb_acquire((u64)s, 0); return 0;
}
int __wrap_pthread_barrier_init(pthread_barrier_t *b, const void *a, unsigned n) {
  memset(b, 0, sizeof *b); ((struct vbarrier *)b)->count = n; return 0;
}
int __wrap_pthread_barrier_destroy(pthread_barrier_t *b) { return 0; }
int __wrap_pthread_barrier_wait(pthread_barrier_t *bb) {
  struct vbarrier *b = (void *)bb; sync_touch(b);
  if (hb_on) hb_release((u64)b, 0, 1);
  if (++b->waiting == b->count) {
    b->waiting = 0; b->gen++;
    for (int i = 0; i < nT; i++) if (T[i].st == T_BARRIER && T[i].obj == b) T[i].signalled = 1;
    if (hb_on) hb_acquire((u64)b, 0);
    return PTHREAD_BARRIER_SERIAL_THREAD;
  }
  T[cur].st = T_BARRIER; T[cur].obj = b; T[cur].signalled = 0;
  reschedule();
  T[cur].st = T_RUN; if (hb_on) hb_acquire((u64)b, 0);
  return 0;
}

int __wrap_sched_yield(void) { do_yield(); return 0; }
void mcrt_pause(void) { do_yield(); }
static void sleep_ns(u64 ns) {
  if (ns < 1000000) { do_yield(); return; }
  T[cur].st = T_SLEEP; T[cur].deadline = now_ns + ns; reschedule(); T[cur].st = T_RUN;
}
int __wrap_usleep(unsigned us) { sleep_ns((u64)us * 1000); return 0; }
unsigned __wrap_sleep(unsigned s) { sleep_ns((u64)s * 1000000000ull); return 0; }
int __wrap_nanosleep(const struct timespec *ts, struct timespec *rem) { sleep_ns(ts->tv_sec * 1000000000ull + ts->tv_nsec); return 0; }
int __wrap_clock_nanosleep(clockid_t c, int f, const struct timespec *ts, struct timespec *rem) {
  u64 t = ts->tv_sec * 1000000000ull + ts->tv_nsec;
  sleep_ns(f ? (t > now_ns ? t - now_ns : 0) : t); return 0;
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts) {
  now_ns += 1000;
  ts->tv_sec = now_ns / 1000000000ull; ts->tv_nsec = now_ns % 1000000000ull; return 0;
}
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
  now_ns += 1000; tv->tv_sec = now_ns / 1000000000ull; tv->tv_usec = now_ns % 1000000000ull / 1000; return 0;
}
time_t __wrap_time(time_t *t) { now_ns += 1000; time_t r = now_ns / 1000000000ull; if (t) *t = r; return r; }
int __wrap_sched_getaffinity(pid_t p, size_t n, cpu_set_t *s) {
  memset(s, 0, n); int k = mc_opt("cpus", 4); for (int i = 0; i < k; i++) CPU_SET(i, s); return 0;
}
long __wrap_sysconf(int name) {
  extern long __real_sysconf(int);
  if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return mc_opt("cpus", 4);
  return __real_sysconf(name);
}

// ------------------------------------------------------------------ memory
struct iv { u64 lo, hi; int rw; };
#define MAXIV 4096
static struct iv ivs[MAXIV]; static int nivs;
static u64 arena_next = 0x100000000000ull;
static void iv_remove(u64 lo, u64 hi) {
  for (int i = 0; i < nivs; i++) {
    struct iv v = ivs[i];
    if (v.hi <= lo || v.lo >= hi) continue;
    ivs[i--] = ivs[--nivs];
    if (v.lo < lo && nivs < MAXIV) ivs[nivs++] = (struct iv){ v.lo, lo, v.rw };
    if (v.hi > hi && nivs < MAXIV) ivs[nivs++] = (struct iv){ hi, v.hi, v.rw };
    i = -1;
  }
}
static void iv_add(u64 lo, u64 hi, int rw) {
  iv_remove(lo, hi);
  for (int i = 0; i < nivs; i++) if (ivs[i].rw == rw) {
    if (ivs[i].hi == lo) { lo = ivs[i].lo; ivs[i--] = ivs[--nivs]; }
    else if (ivs[i].lo == hi) { hi = ivs[i].hi; ivs[i--] = ivs[--nivs]; }
  }
  if (nivs >= MAXIV) { fprintf(stderr, "mcrt: too many mappings\n"); kill(getpid(), SIGKILL); }
  ivs[nivs++] = (struct iv){ lo, hi, rw };
}
static int iv_overlap(u64 lo, u64 hi) {
  for (int i = 0; i < nivs; i++) if (ivs[i].lo < hi && lo < ivs[i].hi) return 1;
  return 0;
}
int mc_mapped(uintptr_t a, size_t n) {
  u64 lo = a, hi = a + n;
  while (lo < hi) {
    int f = 0;
    for (int i = 0; i < nivs; i++) if (ivs[i].rw && ivs[i].lo <= lo && lo < ivs[i].hi) { lo = ivs[i].hi; f = 1; break; }
    if (!f) return 0;
  }
  return 1;
}
size_t mc_mapped_total(void) { size_t n = 0; for (int i = 0; i < nivs; i++) if (ivs[i].rw) n += ivs[i].hi - ivs[i].lo; return n; }
void *__wrap_mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) {
  if (fd != -1) return __real_mmap(addr, len, prot, flags, fd, off);
  if (mc_inject_mmap && mc_fault(2)) { errno = ENOMEM; return MAP_FAILED; }
  if (len == 0) { errno = EINVAL; return MAP_FAILED; }
  size_t l = (len + 4095) & ~4095ull;
  if (len > (1ull << 46) || l == 0) { errno = ENOMEM; return MAP_FAILED; }
  u64 a = (u64)addr;
  if (!(flags & MAP_FIXED)) {
    if (!a || (a & 4095) || iv_overlap(a, a + l)) {
      // page-aligned, and at no particular larger alignment
      a = arena_next + (u64)mmap_skew * 4096;
      arena_next = (a + l + 4095) & ~4095ull;
    }
  }
  // the collector's own limits decide, not the machine's: never charge memory
  void *p = __real_mmap((void *)a, l, prot, (flags & ~MAP_POPULATE) | MAP_FIXED | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) return p;
  __real_madvise(p, l, MADV_NOHUGEPAGE);
  iv_add(a, a + l, (prot & (PROT_READ | PROT_WRITE)) == (PROT_READ | PROT_WRITE));
  return p;
}
size_t mc_resident(void) {
  static unsigned char vec[4096];
  size_t n = 0;
  for (int i = 0; i < nivs; i++)
    for (u64 a = ivs[i].lo; a < ivs[i].hi; a += sizeof vec * 4096) {
      u64 l = ivs[i].hi - a; if (l > sizeof vec * 4096) l = sizeof vec * 4096;
      if (!ivs[i].rw || mincore((void *)a, l, vec)) continue;
      for (u64 k = 0; k < l / 4096; k++) n += vec[k] & 1;
    }
  return n * 4096;
}
int __wrap_munmap(void *p, size_t len) {
  u64 a = (u64)p; size_t l = (len + 4095) & ~4095ull;
  if ((a & 4095) || !len) { errno = EINVAL; return -1; }
  iv_remove(a, a + l);
  return __real_munmap(p, len);
}
int __wrap_madvise(void *p, size_t len, int adv) {
  if (mc_inject_madvise && mc_fault(2)) { errno = EAGAIN; return -1; }
  return __real_madvise(p, len, adv);
}
int __wrap_mprotect(void *p, size_t len, int prot) {
  extern int __real_mprotect(void *, size_t, int);
  int r = __real_mprotect(p, len, prot);
  if (!r) { u64 a = (u64)p, l = (len + 4095) & ~4095ull; iv_add(a, a + l, (prot & (PROT_READ | PROT_WRITE)) == (PROT_READ | PROT_WRITE)); }
  return r;
}
void *__wrap_malloc(size_t n) {
  if (mc_inject_malloc && mc_fault(2)) { errno = ENOMEM; return NULL; }
  void *p = __real_malloc(n);
  if (p) memset(p, 0xb5, n);      // deterministic, and never luckily zero
  return p;
}
void *__wrap_calloc(size_t n, size_t m) {
  if (mc_inject_malloc && mc_fault(2)) { errno = ENOMEM; return NULL; }
  return __real_calloc(n, m);
}
void *__wrap_realloc(void *p, size_t n) {
  if (mc_inject_malloc && mc_fault(2)) { errno = ENOMEM; return NULL; }
  return __real_realloc(p, n);
}

// ------------------------------------------------------------------ crashes
static void on_crash(int sig, siginfo_t *si, void *uc) {
  if (sig == SIGPROF) {
    if (hang_ok) end_leaf();
    char b[600]; describe_threads(b, sizeof b);
    void *pc = (void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    char m[900]; snprintf(m, sizeof m, "hang: no end after %.0f s of processor time, thread t%d at %p;%s", cpu_limit, cur, pc, b);
    if (!in_fail) { in_fail = 1; report(m); }
    end_process();
  }
  if (sig == SIGSEGV && allow_crash == 3 && mc_faults_taken && (u64)si->si_addr < 65536) {
    atomic_fetch_add(&S->crash_ok, 1);
    end_leaf();
  }
  if ((sig == SIGILL || sig == SIGABRT || sig == SIGTRAP) && (allow_crash == 1 || (allow_crash >= 2 && mc_faults_taken))) {
    atomic_fetch_add(&S->crash_ok, 1);
    end_leaf();
  }
  void *pc = (void *)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
  char m[400];
  snprintf(m, sizeof m, "crash: signal %d (%s) at pc %p address %p in thread t%d", sig,
           sig == SIGILL ? "GC_CRASH or failed assertion" : sig == SIGSEGV ? "segmentation fault" : strsignal(sig),
           pc, sig == SIGILL ? pc : si->si_addr, cur);
  if (replaying) {
    void *bt[40]; int n = backtrace(bt, 40);
    fprintf(stderr, "%s\n", m); backtrace_symbols_fd(bt, n, 2);
  }
  if (!in_fail) { in_fail = 1; report(m); }
  end_process();
}
static void install_handlers(void) {
  static char alt[65536];
  stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
  sigaltstack(&ss, NULL);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_crash; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP, SIGPROF };
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
}

// ------------------------------------------------------------------ main
static void *main_thread(void *arg) { mc_harness(); end_leaf(); }

static void run_root(void) {
  // in a fresh process: one exploration
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  install_handlers();
  child_timer();
  hb_on = use_hb && bound <= hb_upto;
  if (hb_on) {
    cells = __real_mmap(NULL, CELLS * sizeof *cells, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    svcs = __real_mmap(NULL, SVCS * sizeof *svcs, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  budget = bound; ticks_left = ticks_max; faults_left = faults_max; spurious_left = spurious_max;
  prepare_thread(0);
  clk[0] = 1;
  T[0].fn = main_thread; T[0].st = T_RUN;
  cur = 0;
  void *dummy;
  mcrt_switch(&dummy, T[0].sp);
}

static void json_str(FILE *f, const char *s) {
  fputc('"', f);
  for (; *s; s++) {
    if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
    else if (*s == '\n') fputs("\\n", f);
    else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) fprintf(f, "?");
    else fputc(*s, f);
  }
  fputc('"', f);
}
static u64 popcount(u32 *b, u32 n) { u64 c = 0; for (u32 i = 0; i < n / 32; i++) c += __builtin_popcount(b[i]); return c; }

static int explore(void) {
  // returns 0 when the exploration ran to its end
  atomic_store(&S->active, 1);
  pid_t pid = fork();
  if (pid == 0) run_root();
  int st; while (waitpid(pid, &st, 0) < 0 && errno == EINTR);
  if (!WIFEXITED(st)) atomic_fetch_add(&S->internal, 1);
  return 0;
}

int main(int argc, char **argv) {
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("MCRT_REEXEC")) {
    if (personality(pers | ADDR_NO_RANDOMIZE) != -1) { setenv("MCRT_REEXEC", "1", 1); execv("/proc/self/exe", argv); }
  }
  for (int i = 1; i < argc; i++) {
    char *a = argv[i], *v = i + 1 < argc ? argv[i + 1] : "0";
    if (!strcmp(a, "--bound")) bound_max = atoi(v), i++;
    else if (!strcmp(a, "--jobs")) jobs = atoi(v), i++;
    else if (!strcmp(a, "--ticks")) ticks_max = atoi(v), i++;
    else if (!strcmp(a, "--faults")) faults_max = atoi(v), i++;
    else if (!strcmp(a, "--spurious")) spurious_max = atoi(v), i++;
    else if (!strcmp(a, "--time")) time_limit = atof(v), i++;
    else if (!strcmp(a, "--cpu")) cpu_limit = atof(v), i++;
    else if (!strcmp(a, "--rounds")) max_rounds = atoi(v), i++;
    else if (!strcmp(a, "--hb-upto")) hb_upto = atoi(v), i++;
    else if (!strcmp(a, "--max-execs")) max_execs = atoll(v), i++;
    else if (!strcmp(a, "--skew")) mmap_skew = atoi(v), i++;
    else if (!strcmp(a, "--no-hb")) use_hb = 0;
    else if (!strcmp(a, "--tso")) tso = 1;
    else if (!strcmp(a, "--free-switch")) free_switch = 1;
    else if (!strcmp(a, "--all-points")) all_points = 1;
    else if (!strcmp(a, "--verbose")) verbose = 1;
    else if (!strcmp(a, "--out")) out_path = v, i++;
    else if (!strcmp(a, "--replay")) replay_path = v, i++;
    else if (!strcmp(a, "--opt")) {
      char *d = strdup(v); char *e = strchr(d, '='); if (e) *e++ = 0; else e = "1";
      opts[nopts].name = d; opts[nopts++].val = e; i++;
    } else { fprintf(stderr, "unknown argument %s\n", a); return 3; }
  }
  S = __real_mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  t_start_ns = real_ns();
  int keep_stderr = getenv("MC_STDERR") != NULL || replay_path;
  if (!keep_stderr) { int n = open("/dev/null", O_WRONLY); fflush(NULL); dup2(n, 2); }

  if (replay_path) {
    // read without allocating: addresses must come out as they did when exploring
    static char tr[1 << 20]; int fd = open(replay_path, O_RDONLY); if (fd < 0) { perror(replay_path); return 3; }
    int got = 0, k; while ((k = read(fd, tr + got, sizeof tr - 1 - got)) > 0) got += k;
    close(fd);
    unsigned idx, c, n; int inpts = 0; u64 pt;
    for (char *line = tr, *next; *line; line = next) {
      next = strchr(line, '\n'); if (next) *next++ = 0; else next = line + strlen(line);
      if (sscanf(line, "bound %d", &bound) == 1) { budget = bound; continue; }
      if (!strncmp(line, "points", 6)) { inpts = 1; continue; }
      if (!strncmp(line, "end", 3)) break;
      if (inpts && sscanf(line, "%lx", &pt) == 1) { S->cur[pt >> 5] |= 1u << (pt & 31); S->next[pt >> 5] |= 1u << (pt & 31); continue; }
      if (sscanf(line, "dev %u %u %u", &idx, &c, &n) == 3 && nrdevs < MAXDEV) rdevs[nrdevs++] = (struct dev){ idx, c, n };
    }
    replaying = 1;
    explore();
    if (S->v.set == 2) { printf("REPLAY violation: %s\n--- log\n%s", S->v.msg, S->v.log); return 1; }
    printf("REPLAY: no violation\n"); return 0;
  }

  FILE *out = out_path ? fopen(out_path, "w") : stdout;
  if (!out) { perror(out_path); return 3; }
  int complete_bound = -1, rounds = 0, fix = 1;
  u64 tot_exec = 0, tot_choices = 0, tot_points = 0, tot_trans = 0, last_exec = 0;
  int truncated = 0;
  for (bound = 0; bound <= bound_max; bound++) {
    for (int r = 0; r < max_rounds; r++) {
      u64 before = S->executions;
      S->newpoints = 0; S->stop = 0; S->truncated = 0;
      explore();
      rounds++;
      last_exec = S->executions - before;
      if (S->v.set) goto done;
      if (S->truncated) { truncated = 1; goto done; }
      fix = S->newpoints == 0;
      if (S->newpoints == 0) break;
      for (u32 i = 0; i < POINTBITS / 32; i++) S->cur[i] |= S->next[i];
    }
    complete_bound = bound;
  }
 done:
  tot_exec = S->executions; tot_choices = S->choices; tot_points = S->points; tot_trans = S->transitions;
  fprintf(out, "{\"harness\":"); json_str(out, mc_harness_name);
  fprintf(out, ",\"executions\":%lu,\"executions_last_round\":%lu,\"choices\":%lu,\"points\":%lu,\"transitions\":%lu,\"forks\":%lu",
          tot_exec, last_exec, tot_choices, tot_points, tot_trans, (u64)S->forks);
  fprintf(out, ",\"max_choices\":%u,\"states\":%lu,\"outcomes\":%lu,\"crash_ok\":%lu,\"internal\":%d,\"truncated\":%s,\"bound_complete\":%d,\"bound\":%d,\"rounds\":%d,\"point_words\":%lu,\"points_fixpoint\":%s,\"table_full\":%d",
          S->max_choices, popcount(S->states, STATEBITS), popcount(S->outcomes, STATEBITS), (u64)S->crash_ok, S->internal,
          truncated ? "true" : "false", complete_bound, bound_max, rounds, popcount(S->cur, POINTBITS), fix ? "true" : "false", S->table_full);
  fprintf(out, ",\"classes\":[");
  for (int i = 0; i < 32; i++) fprintf(out, "%s%lu", i ? "," : "", (u64)S->classes[i]);
  fprintf(out, "],\"wall_s\":%.2f,\"samples\":[", (real_ns() - t_start_ns) / 1e9);
  int first = 1;
  for (int i = 0; i < NSAMPLES; i++) if (S->samples[i][0]) { if (!first) fputc(',', out); first = 0; json_str(out, S->samples[i]); }
  fprintf(out, "],\"violation\":");
  if (S->v.set == 2) {
    fprintf(out, "{\"msg\":"); json_str(out, S->v.msg); fprintf(out, ",\"log\":"); json_str(out, S->v.log);
    fprintf(out, ",\"trace\":\"bound %d\\n", S->v.bound);
    for (int i = 0; i < S->v.ndevs; i++) fprintf(out, "dev %u %u %u\\n", S->v.devs[i].idx, S->v.devs[i].chosen, S->v.devs[i].n);
    fprintf(out, "points\\n");
    for (u32 i = 0; i < POINTBITS; i++) if ((S->cur[i >> 5] >> (i & 31)) & 1) fprintf(out, "%x\\n", i);
    fprintf(out, "end\\n\"}");
  } else fprintf(out, "null");
  fprintf(out, "}\n");
  fflush(out);
  return S->v.set ? 1 : 0;
}

// ------------------------------------------------------------------ global roots
// A conservative collector scans the writable segments of the program.  This
// runtime's own variables live there too (its tables of mappings are full of heap
// addresses); they are kept in sections of their own, which are cut out of what
// the collector sees.  Everything else is reported as the loader reports it.
#include <link.h>
extern char __start_mcbss[], __stop_mcbss[], __start_mcdata[], __stop_mcdata[];
int __real_dl_iterate_phdr(int (*f)(struct dl_phdr_info *, size_t, void *), void *data);
struct dlw { int (*f)(struct dl_phdr_info *, size_t, void *); void *data; };
static int dl_one(struct dl_phdr_info *info, size_t size, void *data) {
  struct dlw *w = data;
  ElfW(Phdr) ph[64]; int n = 0;
  u64 cut[2][2] = { { (u64)__start_mcbss, (u64)__stop_mcbss }, { (u64)__start_mcdata, (u64)__stop_mcdata } };
  for (int i = 0; i < info->dlpi_phnum && n < 60; i++) {
    ElfW(Phdr) p = info->dlpi_phdr[i];
    ph[n++] = p;
    for (int again = 1; again; ) {
      again = 0;
      for (int j = 0; j < n && n < 60; j++) for (int c = 0; c < 2; c++) {
        u64 lo = info->dlpi_addr + ph[j].p_vaddr, hi = lo + ph[j].p_memsz;
        if (ph[j].p_type != PT_LOAD || hi <= cut[c][0] || lo >= cut[c][1]) continue;
        ElfW(Phdr) q = ph[j];
        ph[j] = ph[--n];
        if (lo < cut[c][0]) { ph[n] = q; ph[n].p_memsz = cut[c][0] - lo; n++; }
        if (hi > cut[c][1]) { ph[n] = q; ph[n].p_vaddr = cut[c][1] - info->dlpi_addr; ph[n].p_memsz = hi - cut[c][1]; n++; }
        again = 1; j = n; break;
      }
    }
  }
  struct dl_phdr_info i2 = *info;
  i2.dlpi_phdr = ph; i2.dlpi_phnum = n;
  return w->f(&i2, size, w->data);
}
int __wrap_dl_iterate_phdr(int (*f)(struct dl_phdr_info *, size_t, void *), void *data) {
  struct dlw w = { f, data };
  return __real_dl_iterate_phdr(dl_one, &w);
}
