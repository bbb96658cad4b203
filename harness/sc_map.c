// Address map (or, with -DSET, address set): explicit-state search of every table
// reachable by add / remove / clear over a universe of keys whose hashes collide
// and wrap around the end of the table; every operation and every query of every
// reachable table is compared with a reference map.
//   --opt n=<keys> --opt uni=<universe> --opt vals=<values per key> --opt max=<states>
#include "gc-assert.h"
#ifdef SET
#include "address-set.h"
#define T address_set
#define HT hash_set
#else
#include "address-map.h"
#define T address_map
#define HT hash_map
#endif
#include "comp.h"
#define CAT_(a, b) a ## b
#define CAT(a, b) CAT_(a, b)
#define F(n) CAT(T, n)
const char *mc_harness_name = "map";

#define MAXN 20
#define MAXSZ 64
// hashed keys: low bits decide the slot (sizes 8, 16, 32), so 7/15/23/31 share the
// last slot of a small table and spill over its end
static const uint64_t unis[][MAXN] = {
  { 7, 15, 6, 0, 8, 23, 14, 31, 1, 22, 16, 39, 9, 5, 2, 47 },
  { 7, 15, 23, 31, 39, 47, 55, 63, 71, 6, 14, 79, 87, 0, 95, 103, 111 },
  { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 31, 30 },
  { 15, 31, 47, 63, 30, 14, 0, 16, 1, 62, 46, 7, 23, 39, 13, 29 },
};
static int N, V;
static uintptr_t addr[MAXN], absent[8];
static int nabsent;

// A state: the reference map (0 = absent, else value+1) and the table's content.
struct st { uint8_t ref[MAXN]; uint16_t size, n; uint8_t slot[MAXSZ]; };

static int keyno(uintptr_t a) { for (int i = 0; i < N; i++) if (addr[i] == a) return i; return -1; }
static void thaw(struct T *t, const struct st *s) {
  struct HT *h = &t->HT;
  h->size = s->size; h->n_items = s->n;
  h->bits = malloc(s->size / 8); memset(h->bits, 0, s->size / 8);
  h->data = malloc(sizeof(h->data[0]) * s->size);
  for (int i = 0; i < s->size; i++)
    if (s->slot[i]) {
      int k = (s->slot[i] - 1) / V, v = (s->slot[i] - 1) % V;
      h->bits[i / 8] |= 1 << (i % 8);
#ifdef SET
      h->data[i] = hash_address(addr[k]);
#else
      h->data[i].k = hash_address(addr[k]); h->data[i].v = 100 + v;
#endif
    }
}
static void freeze(struct T *t, struct st *s) {
  struct HT *h = &t->HT;
  mc_check(h->size <= MAXSZ && h->size >= 8, "table of %zu slots for %d keys", h->size, N);
  s->size = h->size; s->n = h->n_items;
  memset(s->slot, 0, sizeof s->slot);
  for (size_t i = 0; i < h->size; i++)
    if (h->bits[i / 8] & (1 << (i % 8))) {
#ifdef SET
      uintptr_t a = unhash_address(h->data[i]); int v = 0;
#else
      uintptr_t a = unhash_address(h->data[i].k); int v = h->data[i].v - 100;
#endif
      int k = keyno(a);
      mc_check(k >= 0 && v >= 0 && v < V, "the table holds a key or value that was never added");
      s->slot[i] = 1 + k * V + v;
    }
}

static uint8_t seen[MAXN]; static int nseen;
static void visit(uintptr_t a, uintptr_t v, void *d) {
  int k = keyno(a);
  mc_check(k >= 0, "iteration produced a key that was never added");
  mc_check(!seen[k], "iteration produced key %d twice", k);
  mc_check(d == seen, "iteration passed the wrong data");
  seen[k] = 1 + v; nseen++;
}
#ifdef SET
static void visit_set(uintptr_t a, void *d) { visit(a, 0, d); }
static int find_stop; static int visit_find(uintptr_t a, void *d) { visit(a, 0, d); return nseen == find_stop; }
#else
static void visit_map(uintptr_t a, uintptr_t v, void *d) { visit(a, v - 100, d); }
#endif

static void examine(struct T *t, const uint8_t *ref, const char *after) {
  int n = 0;
  for (int i = 0; i < N; i++) {
    n += !!ref[i];
    mc_check(!!F(_contains)(t, addr[i]) == !!ref[i], "after %s: contains(key %d) is wrong", after, i);
#ifndef SET
    mc_check(address_map_lookup(t, addr[i], 7777) == (ref[i] ? 100 + ref[i] - 1u : 7777u), "after %s: lookup(key %d) is wrong", after, i);
#endif
  }
  for (int i = 0; i < nabsent; i++) {
    mc_check(!F(_contains)(t, absent[i]), "after %s: contains a key never added", after);
#ifndef SET
    mc_check(address_map_lookup(t, absent[i], 7777) == 7777, "after %s: lookup finds a key never added", after);
#endif
  }
  memset(seen, 0, sizeof seen); nseen = 0;
#ifdef SET
  address_set_for_each(t, visit_set, seen);
#else
  address_map_for_each(t, visit_map, seen);
#endif
  mc_check(nseen == n, "after %s: iteration produced %d of %d keys", after, nseen, n);
  mc_check(!memcmp(seen, ref, N), "after %s: iteration produced the wrong keys or values", after);
#ifdef SET
  if (n) {
    find_stop = 1 + n / 2;
    memset(seen, 0, sizeof seen); nseen = 0;
    address_set_find(t, visit_find, seen);
    mc_check(nseen == (find_stop < n ? find_stop : n), "after %s: find did not stop when told", after);
  }
#endif
}

void mc_harness(void) {
  int u = mc_opt("uni", 0), max = mc_opt("max", 200000), unions = mc_opt("unions", 0);
  N = mc_opt("n", 8);
#ifdef SET
  V = 1;
#else
  V = mc_opt("vals", 2);
#endif
  for (int i = 0; i < N; i++) addr[i] = unhash_address(unis[u][i]);
  for (uintptr_t i = 0; i < 8; i++) { uintptr_t h = i * 9 + 128; absent[nabsent++] = unhash_address(h); }
  struct states S; states_init(&S, sizeof(struct st));
  struct T t; F(_init)(&t);
  struct st s; memset(&s, 0, sizeof s);
  freeze(&t, &s); examine(&t, s.ref, "init");
  F(_destroy)(&t);
  states_add(&S, &s);
  size_t i;
  for (i = 0; i < S.n && S.n < (size_t)max; i++) {
    int nops = N * V + N + 1;
    for (int o = 0; o < nops; o++) {
      memcpy(&s, states_at(&S, i), sizeof s);
      const char *what;
      int k;
      if (o < N * V) k = o / V, what = "add";
      else if (o < N * V + N) { k = o - N * V; if (!s.ref[k]) continue; what = "remove"; }
      else k = -1, what = "clear";
      thaw(&t, &s);
      if (*what == 'a') {
#ifdef SET
        address_set_add(&t, addr[k]);
#else
        address_map_add(&t, addr[k], 100 + o % V);
#endif
        s.ref[k] = 1 + o % V;
      } else if (*what == 'r') { F(_remove)(&t, addr[k]); s.ref[k] = 0; }
      else { F(_clear)(&t); memset(s.ref, 0, sizeof s.ref); }
      mc_transition();
      examine(&t, s.ref, what);
      freeze(&t, &s);
      states_add(&S, &s);
      F(_destroy)(&t);
    }
#ifdef SET
    // union with each of a family of other sets: runs of the key universe, and whatever
    // table was discovered half as long ago
    if (unions)
      for (int a = 0; a < N; a++)
        for (int len = 1; len <= N; len++) {
          memcpy(&s, states_at(&S, i), sizeof s);
          struct T o; thaw(&t, &s); address_set_init(&o);
          uint8_t oref[MAXN]; memset(oref, 0, sizeof oref);
          for (int j = 0; j < len; j++) { int k = (a + j) % N; address_set_add(&o, addr[k]); oref[k] = 1; s.ref[k] = 1; }
          address_set_union(&t, &o);
          mc_transition();
          examine(&t, s.ref, "union"); examine(&o, oref, "being united");
          freeze(&t, &s); states_add(&S, &s);
          address_set_destroy(&t); address_set_destroy(&o);
        }
#endif
  }
  mc_count(S.n < (size_t)max ? 1 : 0);      // class 1: every reachable table explored
  mc_log("%zu tables, %s", S.n, i == S.n ? "all reachable" : "limit reached");
  mc_outcome(S.n);
}
