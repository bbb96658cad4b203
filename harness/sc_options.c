// Options: every short string, every boundary number, every list of a few items,
// through the public API of a collector, against an independent parser.
//   --opt part=<setters|strings|numbers|many> --opt len=N
#define GC_IMPL 1
#include <ctype.h>
#include <limits.h>
#include <math.h>
#include <sys/types.h>
#include "comp.h"
#include "gc-assert.h"
#include "gc-api.h"
#include "gc-options-internal.h"
const char *mc_harness_name = "options-" HH_CONFIG;
typedef unsigned __int128 u128;
typedef unsigned long ul;

enum { INT, SIZE, DOUBLE };
static const struct { int id, type; const char *name; double lo, hi; } OPT[] = {
  { GC_OPTION_HEAP_SIZE_POLICY, INT, "heap-size-policy", 0, 2 },
  { GC_OPTION_HEAP_SIZE, SIZE, "heap-size", 0, 0 },
  { GC_OPTION_MAXIMUM_HEAP_SIZE, SIZE, "maximum-heap-size", 0, 0 },
  { GC_OPTION_HEAP_SIZE_MULTIPLIER, DOUBLE, "heap-size-multiplier", 1.0, 1e6 },
  { GC_OPTION_HEAP_EXPANSIVENESS, DOUBLE, "heap-expansiveness", 0.0, 50.0 },
  { GC_OPTION_PARALLELISM, INT, "parallelism", 1, 64 },
};
#define NOPT 6
struct val { long policy, parallelism; size_t heap, max; double mult, expan; };
static struct val get(struct gc_options *o) {
  struct gc_common_options *c = (void *)o;
  return (struct val){ c->heap_size_policy, c->parallelism, c->heap_size, c->maximum_heap_size, c->heap_size_multiplier, c->heap_expansiveness };
}
static int same(struct val a, struct val b) {
  return a.policy == b.policy && a.parallelism == b.parallelism && a.heap == b.heap && a.max == b.max && a.mult == b.mult && a.expan == b.expan;
}
static struct gc_options *fresh(void) {
  struct gc_options *o = gc_allocate_options();
  mc_check(o, "gc_allocate_options failed");
  // values unlike any the tests use
  gc_options_set_int(o, GC_OPTION_HEAP_SIZE_POLICY, 1); gc_options_set_int(o, GC_OPTION_PARALLELISM, 37);
  gc_options_set_size(o, GC_OPTION_HEAP_SIZE, 123457); gc_options_set_size(o, GC_OPTION_MAXIMUM_HEAP_SIZE, 7654321);
  gc_options_set_double(o, GC_OPTION_HEAP_SIZE_MULTIPLIER, 3.75); gc_options_set_double(o, GC_OPTION_HEAP_EXPANSIVENESS, 9.125);
  return o;
}

// ---- the reference.  A number is read as C's strtol and strtod describe.
// verdict: 0 reject, 1 accept with *v, 2 either (not a claim)
static int ref_integer(const char *s, u128 *mag, int *neg, const char **end) {
  const char *p = s;
  while (isspace((unsigned char)*p)) p++;
  *neg = 0;
  if (*p == '+' || *p == '-') *neg = *p++ == '-';
  int base = 10;
  if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) base = 16, p += 2;
  else if (p[0] == '0') base = 8;
  u128 n = 0; int any = 0;
  for (;; p++) {
    int c = tolower((unsigned char)*p), d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : 99;
    if (d >= base) break;
    any = 1;
    if (n >> 90) continue;       // saturate: far out of range already
    n = n * base + d;
  }
  *mag = n; *end = p;
  return any;
}
static int ref_size(const char *s, size_t *v) {
  u128 n; int neg; const char *e;
  if (!ref_integer(s, &n, &neg, &e)) return 0;
  if (neg && n) return 0;
  int huge = n >= (u128)LONG_MAX;
  int shift = 0;
  switch (*e) { case 'k': case 'K': shift = 10; break; case 'm': case 'M': shift = 20; break; case 'g': case 'G': shift = 30; break; case 't': case 'T': shift = 40; break; }
  if (shift) e++;
  if (*e) return 0;
  u128 r = n << shift;
  if (n >> 80 || r > (u128)SIZE_MAX) return 0;
  *v = r;
  return huge ? 2 : 1;
}
static int ref_int(const char *s, int policy, long *v) {
  if (policy) {
    if (!strcmp(s, "fixed")) { *v = 0; return 1; }
    if (!strcmp(s, "growable")) { *v = 1; return 1; }
    if (!strcmp(s, "adaptive")) { *v = 2; return 1; }
  }
  u128 n; int neg; const char *e;
  if (!ref_integer(s, &n, &neg, &e) || *e) return 0;
  if (n > 1000000) return 0;
  *v = neg ? -(long)n : (long)n;
  return 1;
}
static int ref(int i, const char *s, struct val *v) {
  switch (OPT[i].type) {
  case INT: {
    long n; if (!ref_int(s, i == 0, &n) || n < OPT[i].lo || n > OPT[i].hi) return 0;
    if (i == 0) v->policy = n; else v->parallelism = n;
    return 1;
  }
  case SIZE: {
    size_t n; int r = ref_size(s, &n); if (!r) return 0;
    if (i == 1) v->heap = n; else v->max = n;
    return r;
  }
  default: {
    char *e; double d = strtod(s, &e);
    if (e == s || *e || !(d >= OPT[i].lo && d <= OPT[i].hi)) return 0;
    if (i == 3) v->mult = d; else v->expan = d;
    return 1;
  }
  }
}
static void show(char *b, size_t n, struct val v) { snprintf(b, n, "policy %ld parallelism %ld heap %zu max %zu mult %g expan %g", v.policy, v.parallelism, v.heap, v.max, v.mult, v.expan); }
static void expect(const char *what, const char *s, int got, int verdict, struct val have, struct val before, struct val want) {
  char a[200], b[200];
  mc_transition();
  if (verdict == 2 ? got : verdict) {
    if (!got) mc_fail("%s \"%s\" was rejected", what, s);
    if (!same(have, want)) { show(a, sizeof a, have); show(b, sizeof b, want); mc_fail("%s \"%s\" stored {%s}, want {%s}", what, s, a, b); }
  } else {
    if (got) { show(a, sizeof a, have); mc_fail("%s \"%s\" was accepted, giving {%s}", what, s, a); }
    if (!same(have, before)) { show(a, sizeof a, have); show(b, sizeof b, before); mc_fail("%s \"%s\" was rejected but changed {%s} to {%s}", what, s, b, a); }
  }
}
static uint64_t accepted;
static void try1(int i, const char *s) {
  static struct gc_options *o; static struct val before;
  if (!o) { o = fresh(); before = get(o); }
  struct gc_common_options save = *(struct gc_common_options *)o;
  struct val want = before;
  int verdict = ref(i, s, &want);
  int got = gc_options_parse_and_set(o, OPT[i].id, s);
  expect(OPT[i].name, s, got, verdict, get(o), before, want);
  if (got) { accepted++; mc_state(comp_hash(s, strlen(s)) + i); }
  *(struct gc_common_options *)o = save;
}

// ---- every string up to a length
static const char AL[] = "0189-+.kMgTxe ,=a_";
static void strs(char *b, int n, int max) {
  b[n] = 0;
  for (int i = 0; i < NOPT; i++) try1(i, b);
  if (n == max) return;
  for (const char *a = AL; *a; a++) { b[n] = *a; strs(b, n + 1, max); }
}
// ---- numbers around every boundary, in every notation, with every suffix
static void dec(u128 v, int base, char *out) {
  char t[160]; int n = 0;
  do { t[n++] = "0123456789abcdef"[(int)(v % base)]; v /= base; } while (v);
  while (n) *out++ = t[--n];
  *out = 0;
}
static void numbers(int part) {
  static const char *suf[] = { "", "k", "K", "m", "M", "g", "G", "t", "T", "kb", "kk", "p", " ", "e3", ".0", "," };
  static const char *pre[] = { "", "-", "+", " ", "--", "+-", "00", "0x", "0X", "-0x", "0x-", "\t\n" };
  for (int bit = 0; bit <= 80; bit++)
    for (int mul = 0; mul < 3; mul++)
      for (int d = -3; d <= 3; d++) {
        if (bit % 9 != part) continue;
        static const int M[] = { 1, 3, 5 };
        __int128 v = ((__int128)M[mul] << bit) + d;
        if (v < 0) continue;
        for (int p = 0; p < 12; p++)
          for (int s = 0; s < 16; s++) {
            char b[200], t[160];
            dec(v, p == 7 || p == 8 || p == 9 ? 16 : p == 6 ? 8 : 10, t);
            snprintf(b, sizeof b, "%s%s%s", pre[p], t, suf[s]);
            for (int i = 0; i < NOPT; i++) try1(i, b);
          }
      }
  static const char *odd[] = { "nan", "-nan", "inf", "-inf", "infinity", "1e400", "1e-400", "1e6", "1000000.0001", "999999.99", "50", "50.0000001", "49.99", "0.0", "-0.0", "1.0", "0.99999", "1e0", "0x1p3", "0x1.8p1",
    "fixed", "growable", "adaptive", "Fixed", "fixed ", "adaptiv", "growable,", "", " ", "\n", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
    "99999999999999999999999999999999999999999999", "1.5k", "2 k", "2k ", "٣", "2\xff" };
  if (part == 0) for (unsigned k = 0; k < sizeof odd / sizeof *odd; k++) for (int i = 0; i < NOPT; i++) try1(i, odd[k]);
}
// ---- lists
static void many(int part) {
  static const char *items[] = {
    "heap-size=1000", "heap-size=2m", "heap-size=3K", "heap-size=", "heap-size", "heap-size=-1", "=5", "maximum-heap-size=64k", "maximum-heap-size=x",
    "heap-size-policy=growable", "heap-size-policy=2", "heap-size-policy=3", "parallelism=4", "parallelism=0", "parallelism=65", "parallelism=4294967298",
    "heap-size-multiplier=2.5", "heap-size-multiplier=0.5", "heap-expansiveness=1e1", "heap-expansiveness=51", "heap-siz=5", "heap-size-=5", "Heap-size=5", "", "heap-size=5=6", "heap-size=7g",
  };
  enum { N = sizeof items / sizeof *items };
  static const char *seps[] = { ",", ",,", " ,", ";" };
  for (int b = -1; b < N; b++)
    for (int c = -1; c < N; c++) {
      if (b < 0 && c >= 0) continue;
      for (int s = 0; s < 4; s++)
        for (int tail = 0; tail < 2; tail++) {
          if (b < 0 && s) continue;
          char str[400]; int idx[3] = { part, b, c };
          strcpy(str, items[part]);
          for (int k = 1; k < 3; k++) if (idx[k] >= 0) { strcat(str, seps[s]); strcat(str, items[idx[k]]); }
          if (tail) strcat(str, ",");
          struct gc_options *o = fresh();
          struct val want = get(o);
          // reference: split at commas; each part must be name=value; stop at the first bad one
          int ok = 1;
          if (*str) {
            char copy[400]; strcpy(copy, str);
            char *p = copy;
            for (;;) {
              char *comma = strchr(p, ','); if (comma) *comma = 0;
              char *eq = strchr(p, '=');
              int i = NOPT;
              if (eq) { *eq = 0; for (i = 0; i < NOPT && strcmp(OPT[i].name, p); i++); }
              if (i == NOPT || !ref(i, eq + 1, &want)) { ok = 0; break; }
              if (!comma) break;
              p = comma + 1;
            }
          }
          int got = gc_options_parse_and_set_many(o, str);
          struct val have = get(o);
          mc_transition();
          char x[200], y[200];
          if (!!got != ok) mc_fail("the option list \"%s\" was %s", str, got ? "accepted" : "rejected");
          if (ok && !same(have, want)) { show(x, sizeof x, have); show(y, sizeof y, want); mc_fail("the option list \"%s\" stored {%s}, want {%s}", str, x, y); }
          if (ok) mc_state(comp_hash(str, strlen(str)));
          free(o);
        }
    }
}
static void setters(void) {
  struct gc_options *o = gc_allocate_options();
  struct val d = get(o);
  int cpus = mc_opt("cpus", 4);
  mc_check(d.policy == GC_HEAP_SIZE_FIXED && d.max == 0 && d.heap == 6 * 1024 * 1024 && d.mult == 1.75 && d.expan == 1.0, "default options are wrong");
  mc_check(d.parallelism == (cpus > 8 ? 8 : cpus), "default parallelism is %ld with %d processors", d.parallelism, cpus);
  // names
  for (int i = 0; i < NOPT; i++) {
    mc_check(gc_option_from_string(OPT[i].name) == OPT[i].id, "name %s is not option %d", OPT[i].name, OPT[i].id);
    for (size_t k = 0; k <= strlen(OPT[i].name); k++) {
      char b[40]; strcpy(b, OPT[i].name); b[k] = b[k] ? 0 : 'x'; b[k + 1] = 0;
      int known = 0; for (int j = 0; j < NOPT; j++) known |= !strcmp(b, OPT[j].name);
      mc_check((gc_option_from_string(b) >= 0) == known, "\"%s\" taken for an option", b);
    }
  }
  static const long ints[] = { INT_MIN, -2, -1, 0, 1, 2, 3, 4, 63, 64, 65, 66, 257, 65537, INT_MAX };
  static const size_t sizes[] = { 0, 1, 4095, 1 << 20, 0x80000000ul, 0x100000000ul, LONG_MAX, (size_t)LONG_MAX + 1, SIZE_MAX };
  static const double dbls[] = { -1, -1e-300, -0.0, 0, 1e-300, 0.5, 0.9999999, 1, 1.0000001, 2.5, 49.999, 50, 50.001, 999999.9, 1e6, 1000000.1, 1e300, INFINITY, -INFINITY, NAN };
  for (int id = -2; id < 9; id++) {
    int k = -1; for (int i = 0; i < NOPT; i++) if (OPT[i].id == id) k = i;
    for (unsigned j = 0; j < sizeof ints / sizeof *ints; j++) {
      o = fresh(); struct val b = get(o), w = b; char t[40]; sprintf(t, "option %d int %ld", id, ints[j]);
      int v = k >= 0 && OPT[k].type == INT && ints[j] >= OPT[k].lo && ints[j] <= OPT[k].hi;
      if (v) { if (k == 0) w.policy = ints[j]; else w.parallelism = ints[j]; }
      int r = gc_options_set_int(o, id, ints[j]); expect("gc_options_set_int", t, r, v, get(o), b, w); free(o);
    }
    for (unsigned j = 0; j < sizeof sizes / sizeof *sizes; j++) {
      o = fresh(); struct val b = get(o), w = b; char t[60]; sprintf(t, "option %d size %zu", id, sizes[j]);
      int v = k >= 0 && OPT[k].type == SIZE;
      if (v) { if (k == 1) w.heap = sizes[j]; else w.max = sizes[j]; }
      int r = gc_options_set_size(o, id, sizes[j]); expect("gc_options_set_size", t, r, v, get(o), b, w); free(o);
    }
    for (unsigned j = 0; j < sizeof dbls / sizeof *dbls; j++) {
      o = fresh(); struct val b = get(o), w = b; char t[60]; sprintf(t, "option %d double %g", id, dbls[j]);
      int v = k >= 0 && OPT[k].type == DOUBLE && dbls[j] >= OPT[k].lo && dbls[j] <= OPT[k].hi;
      if (v) { if (k == 3) w.mult = dbls[j]; else w.expan = dbls[j]; }
      int r = gc_options_set_double(o, id, dbls[j]); expect("gc_options_set_double", t, r, v, get(o), b, w); free(o);
    }
    if (k < 0) {
      o = fresh(); struct val b = get(o);
      expect("unknown option", "1", gc_options_parse_and_set(o, id, "1"), 0, get(o), b, b); free(o);
    }
    mc_state(mc_hash(id, 77));
  }
}

void mc_harness(void) {
  const char *p = mc_optstr("part", "setters");
  if (!strcmp(p, "setters")) setters();
  else if (!strcmp(p, "strings")) {
    char b[16]; int k = mc_choose(sizeof AL - 1);
    b[0] = AL[k]; b[1] = 0;
    if (!k) for (int i = 0; i < NOPT; i++) try1(i, "");
    strs(b, 1, mc_opt("len", 5));
    mc_check(accepted || k > 4, "nothing accepted");
  } else if (!strcmp(p, "numbers")) numbers(mc_choose(9));
  else many(mc_choose(26));
  mc_outcome(accepted);
}
