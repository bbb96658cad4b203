// Splay tree of address spans: explicit-state search of every tree reachable by
// insert / update / remove / lookup over a universe of disjoint spans, with and
// without gaps, compared with a reference map at every address.
//   --opt n=<spans> --opt gap=<0|1>
#include "gc-assert.h"
#include "comp.h"
struct span { uintptr_t start, size; };
static inline int obj_compare(uintptr_t a, struct span s) { return a < s.start ? -1 : a - s.start < s.size ? 0 : 1; }
static inline uintptr_t obj_span_start(struct span s) { return s.start; }
#define SPLAY_TREE_PREFIX obj_
typedef struct span obj_key_span;
typedef uintptr_t obj_key;
typedef uintptr_t obj_value;
#include "splay-tree.h"
const char *mc_harness_name = "splay";
#define MAXN 10
static int N; static struct span sp[MAXN]; static uintptr_t top;
struct st { uint8_t ref[MAXN], node[MAXN * 2 + 1]; };   // node: preorder, 0 = null, 1 + span*2 + value
static const uint8_t *rd;
static struct obj_node *thaw1(void) {
  uint8_t b = *rd++;
  if (!b) return NULL;
  struct obj_node *n = obj_node_new(sp[(b - 1) / 2], 100 + (b - 1) % 2);
  n->left = thaw1(); n->right = thaw1();
  return n;
}
static int spanno(struct span s) { for (int i = 0; i < N; i++) if (!memcmp(&sp[i], &s, sizeof s)) return i; return -1; }
static uint8_t *wr; static int cnt;
static void freeze1(struct obj_node *n) {
  if (!n) { *wr++ = 0; return; }
  mc_check(++cnt <= N, "the tree holds more nodes than were inserted, or is not a tree");
  int i = spanno(n->key);
  mc_check(i >= 0 && n->value - 100 < 2, "the tree holds a span or value never inserted");
  *wr++ = 1 + i * 2 + (n->value - 100);
  freeze1(n->left); freeze1(n->right);
}
static void freeze(struct obj_tree *t, struct st *s) {
  memset(s->node, 0, sizeof s->node); wr = s->node; cnt = 0; freeze1(t->root);
}
static void release(struct obj_node *n) { if (n) { release(n->left); release(n->right); free(n); } }
static int last; static int inorder(struct obj_node *n, const uint8_t *ref) {
  if (!n) return 0;
  int c = inorder(n->left, ref), i = spanno(n->key);
  mc_check(i > last, "the tree is out of order"); last = i;
  mc_check(ref[i] == n->value - 100 + 1, "span %d is there wrongly or with the wrong value", i);
  return c + 1 + inorder(n->right, ref);
}
void mc_harness(void) {
  N = mc_opt("n", 6);
  int gap = mc_opt("gap", 1), V = mc_opt("vals", 2), max = mc_opt("max", 400000);
  uintptr_t at = 2;
  for (int i = 0; i < N; i++) { sp[i].start = at; sp[i].size = 1 + i % 3; at += sp[i].size + (gap ? i % 2 : 0); }
  top = at + 1;
  struct states S; states_init(&S, sizeof(struct st));
  struct st s; memset(&s, 0, sizeof s); states_add(&S, &s);
  struct obj_tree t;
  mc_check((obj_tree_init(&t), t.root == NULL), "a new tree is not empty");
  size_t i;
  for (i = 0; i < S.n && S.n < (size_t)max; i++) {
    int nops = N * V + (int)top * 2;
    for (int o = 0; o < nops; o++) {
      memcpy(&s, states_at(&S, i), sizeof s);
      obj_tree_init(&t);
      rd = s.node; t.root = thaw1();
      if (o < N * V) {
        int k = o / V;
        struct obj_node *n = obj_tree_insert(&t, sp[k], 100 + o % V);
        s.ref[k] = 1 + o % V;
        mc_check(n && spanno(n->key) == k && n->value == 100 + o % V, "insert returned the wrong node");
      } else {
        uintptr_t a = (o - N * V) / 2;
        int k = -1, prev = -1;
        for (int j = 0; j < N; j++) if (s.ref[j]) { if (obj_compare(a, sp[j]) == 0) k = j; else if (sp[j].start < a) prev = j; }
        if (o & 1) {
          if (k < 0) { release(t.root); continue; }
          uintptr_t v = obj_tree_remove(&t, a);
          mc_check(v == 100 + s.ref[k] - 1u, "remove returned the wrong value");
          s.ref[k] = 0;
        } else {
          mc_check(!!obj_tree_contains(&t, a) == (k >= 0), "contains(%d) is wrong", (int)a);
          struct obj_node *n = obj_tree_lookup(&t, a);
          mc_check((n ? spanno(n->key) : -1) == k, "lookup(%d) found span %d instead of %d", (int)a, n ? spanno(n->key) : -1, k);
          if (n) {
            mc_check(n->value == 100 + s.ref[k] - 1u, "lookup(%d) found the wrong value", (int)a);
            struct obj_node *p = obj_tree_previous(n);
            mc_check((p ? spanno(p->key) : -1) == prev, "previous(%d) is span %d instead of %d", k, p ? spanno(p->key) : -1, prev);
          }
        }
      }
      mc_transition();
      freeze(&t, &s);
      int want = 0; for (int j = 0; j < N; j++) want += !!s.ref[j];
      last = -1;
      mc_check(inorder(t.root, s.ref) == want, "the tree lost or gained spans");
      states_add(&S, &s);
      release(t.root);
    }
  }
  mc_count(i == S.n);
  mc_log("%zu trees, %s", S.n, i == S.n ? "all reachable" : "limit reached");
  mc_outcome(S.n);
}
