// mcrt: a small model-checking runtime.
//
// The code under test (whippet's real sources plus a harness) runs on virtual
// threads (coroutines) inside one OS thread.  Every source of nondeterminism --
// scenario choices made by the harness, scheduling decisions, timers, operating
// system refusals -- goes through one choice function, and the runtime explores
// every outcome of every choice within the stated budgets by forking the process
// at each choice ("fork tree" depth-first enumeration).
#ifndef MC_H
#define MC_H

#include <stddef.h>
#include <stdint.h>

// --- Provided by the harness -------------------------------------------------
void mc_harness(void);             // one complete execution
extern const char *mc_harness_name;

// --- Choices -----------------------------------------------------------------
// Explore all of 0..n-1.
int mc_choose(int n);
// As mc_choose, but every alternative other than 0 costs one unit of the named
// fault budget (--faults N); with an exhausted budget returns 0.
int mc_fault(int n);

// --- Parameters (from the command line: --opt name=value) --------------------
long mc_opt(const char *name, long dflt);
const char *mc_optstr(const char *name, const char *dflt);

// --- Reporting ---------------------------------------------------------------
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
#define mc_check(c, ...) do { if (!(c)) mc_fail(__VA_ARGS__); } while (0)
void mc_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// Record that an abstract state / final outcome was reached (for counting only).
void mc_state(uint64_t hash);
void mc_outcome(uint64_t hash);
void mc_transition(void);
// This execution ends here and is fine.
void mc_done(void) __attribute__((noreturn));
// From here on, death by GC_CRASH / abort is a legitimate outcome (the heap may
// be exhausted): the execution ends successfully if that happens.
// With 2, only once something has been refused; with 3, then also by using a null pointer.
void mc_allow_crash(int allow);
int mc_crash_allowed(void);
// Count an execution in class `i` (0..31); reported at the end.
void mc_count(int i);
uint64_t mc_hash(uint64_t h, uint64_t v);

// --- Time and threads --------------------------------------------------------
void mc_tick(void);                // let a second pass; run others until quiet
void mc_quiesce(void);             // run other threads until all are blocked
int mc_self(void);                 // id of the running virtual thread
void mc_atomic_begin(void);        // no scheduling points (harness oracle code)
void mc_atomic_end(void);
void mc_point(void);               // explicit scheduling point
void mc_sched_enable(int on);      // scheduling choices on/off (default on)
// Mark a word as a location whose accesses are scheduling points.
void mc_track(void *addr, size_t size);
void mc_note_hang_ok(int ok);
int mc_replaying(void);
extern int mc_exec_index;

// --- Memory ------------------------------------------------------------------
// Memory obtained by the code under test through mmap.
int mc_mapped(uintptr_t addr, size_t size);
size_t mc_mapped_total(void);
// ... of which this many bytes occupy memory.
size_t mc_resident(void);
// Fault injection: when set, mmap(RW)/madvise/malloc/pthread_create made by the
// code under test ask mc_fault().
extern unsigned long mc_faults_taken;
extern int mc_inject_mmap, mc_inject_malloc, mc_inject_madvise, mc_inject_thread;
extern unsigned long mc_faults_taken;

#endif
