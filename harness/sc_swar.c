// Word-at-a-time scans, size classes, extents and address hashing, each compared
// with a byte-at-a-time or arithmetic reference on every input of a bounded space.
//   --opt part=<scan|word|class|extents|hash>
#define GC_IMPL 1
#include "gc-assert.h"
#include "comp.h"
#include "swar.h"
#include "freelist.h"
#include "extents.h"
#include "address-hash.h"
#include "gc-align.h"
const char *mc_harness_name = "swar";

// ---- scans: three words of metadata; every start offset and every limit reaching
// up to the end of the third word; bytes from a small alphabet of relevant classes
static size_t ref_bits(const uint8_t *p, size_t lim, uint8_t m) { size_t i; for (i = 0; i < lim; i++) if (p[i] & m) break; return i; }
static size_t ref_tag(const uint8_t *p, size_t lim, uint8_t m, uint8_t t) { size_t i; for (i = 0; i < lim; i++) if ((p[i] & m) == t) break; return i; }
static size_t ref_tags(const uint8_t *p, size_t lim, uint8_t m, uint8_t t, uint8_t u) { size_t i; for (i = 0; i < lim; i++) if ((p[i] & m) == t || (p[i] & m) == u) break; return i; }

// A result past the limit means the same as the limit: no match within.
#define EXPECT(name, got, want, lim) do { \
    size_t g_ = (got), w_ = (want); if (g_ > (size_t)(lim)) g_ = (lim); mc_transition(); \
    mc_check(g_ == w_, "%s: found %zu, not %zu (start offset %d, limit %d)", name, g_, w_, off, (int)(lim)); } while (0)

// Is a result past the limit ever distinguishable from "none"?  Callers compare with
// the limit, and pass limits that end at a word boundary; those must be exact.
#define EXPECT_EXACT(name, got, want, lim) do { \
    size_t g_ = (got), w_ = (want); mc_transition(); \
    mc_check(g_ == w_, "%s: found %zu, not %zu (start offset %d, limit %d)", name, g_, w_, off, (int)(lim)); } while (0)

static void scan(void) {
  uint8_t buf[40] __attribute__((aligned(8)));
  static const uint8_t masks[] = { 0x01, 0x03, 0x07, 0x0f, 0x3f };
  static const uint8_t bitmasks[] = { 0x01, 0x08, 0x10, 0x20, 0x40, 0x80, 0x07 };
  int off = mc_choose(8), fill = mc_choose(4);
  // pairs of positions take every pair of byte classes, the rest are a filler
  static const uint8_t fills[] = { 0, 0xff, 0x80, 0x7f };
  for (int a = 0; a < 24; a++)
    for (int b = a; b < 24; b++)
      for (int x = 0; x < 12; x++)
        for (int y = 0; y < 12; y++) {
          static const uint8_t cls[] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 0x10, 0x81, 0xfe };
          memset(buf, fills[fill], sizeof buf);
          buf[a] = cls[x]; buf[b] = cls[y];
          int end = 24 - off;
          for (int li = 0; li < 5; li++) {
            int lim = li == 0 ? end : li == 1 ? end - 8 : li == 2 ? end - 3 : li == 3 ? 1 : b - off;
            if (lim <= 0 || lim > end) continue;
            uint8_t *p = buf + off;
            int exact = (off + lim) % 8 == 0;
            for (int m = 0; m < 5; m++) {
              int t = 1 + (x * 7 + y) % masks[m], u = 1 + (x + y * 3) % masks[m];
              if (exact) {
                EXPECT_EXACT("scan_for_byte_with_tag", scan_for_byte_with_tag(p, lim, masks[m], t), ref_tag(p, lim, masks[m], t), lim);
                EXPECT_EXACT("scan_for_byte_with_tags", scan_for_byte_with_tags(p, lim, masks[m], t, u), ref_tags(p, lim, masks[m], t, u), lim);
              } else {
                EXPECT("scan_for_byte_with_tag", scan_for_byte_with_tag(p, lim, masks[m], t), ref_tag(p, lim, masks[m], t), lim);
                EXPECT("scan_for_byte_with_tags", scan_for_byte_with_tags(p, lim, masks[m], t, u), ref_tags(p, lim, masks[m], t, u), lim);
              }
            }
            for (int m = 0; m < 7; m++) {
              if (exact) EXPECT_EXACT("scan_for_byte_with_bits", scan_for_byte_with_bits(p, lim, bitmasks[m]), ref_bits(p, lim, bitmasks[m]), lim);
              else EXPECT("scan_for_byte_with_bits", scan_for_byte_with_bits(p, lim, bitmasks[m]), ref_bits(p, lim, bitmasks[m]), lim);
            }
          }
        }
  mc_state(off * 4 + fill); mc_outcome(off * 4 + fill);
}

// ---- words: all pairs of values of neighbouring bytes, in each position, against
// every mask and tag, with every filler in the other bytes
static void word(void) {
  static const uint8_t fills[] = { 0, 0xff, 0x80, 0x7f, 1 };
  int pos = mc_choose(7), fill = mc_choose(5);
  uint8_t buf[8] __attribute__((aligned(8)));
  for (int x = 0; x < 256; x++)
    for (int y = 0; y < 256; y++) {
      memset(buf, fills[fill], 8); buf[pos] = x; buf[pos + 1] = y;
      uint64_t w = load_eight_aligned_bytes(buf);
      for (int mb = 1; mb <= 6; mb++) {
        uint8_t mask = (1 << mb) - 1;
        int nt = mask < 15 ? mask : 15;
        for (int ti = 1; ti <= nt; ti++) {
          uint8_t tag = mask < 15 ? ti : 1 + (ti * 37 + x) % mask, tag2 = 1 + (ti * 5 + y) % mask;
          size_t want = ref_tag(buf, 8, mask, tag), want2 = ref_tags(buf, 8, mask, tag, tag2);
          uint64_t g = match_bytes_against_tag(w, mask, tag), g2 = match_bytes_against_2_tags(w, mask, tag, tag2);
          mc_transition();
          mc_check(!g == (want == 8) && count_zero_bytes(g) == want, "match_bytes_against_tag: %zu not %zu", count_zero_bytes(g), want);
          mc_check(!g2 == (want2 == 8) && count_zero_bytes(g2) == want2, "match_bytes_against_2_tags: %zu not %zu", count_zero_bytes(g2), want2);
        }
      }
      for (int m = 1; m < 256; m += (x == y ? 1 : 37)) {
        size_t want = ref_bits(buf, 8, m);
        uint64_t g = match_bytes_against_bits(w, m);
        mc_transition();
        mc_check(!g == (want == 8) && count_zero_bytes(g) == want, "match_bytes_against_bits: %zu not %zu", count_zero_bytes(g), want);
      }
    }
  for (int v = 0; v < 256; v++) { uint64_t b = broadcast_byte(v); for (int i = 0; i < 8; i++) mc_check(((b >> (8 * i)) & 255) == (uint64_t)v, "broadcast_byte(%d)", v); }
  mc_state(pos * 5 + fill); mc_outcome(pos * 5 + fill);
}

// ---- size classes
static void class1(uint64_t v, uint64_t bits, uint64_t prec) {
  size_t n = (bits << prec) + 1, c = gc_histogram_bucket(bits, prec, v);
  mc_transition();
  mc_check(c < n, "value %lu: bucket %zu of %zu", v, c, n);
  mc_check(gc_histogram_bucket_min_val(prec, c) <= v, "value %lu is below its bucket %zu (bits %lu, precision %lu)", v, c, bits, prec);
  if (c + 1 < n) {
    uint64_t nx = gc_histogram_bucket_min_val(prec, c + 1);
    mc_check(v < nx, "value %lu is not below the bucket after its own (%zu, bits %lu, precision %lu)", v, c, bits, prec);
    // linear-log: a bucket is no wider than 2^-precision of its values
    uint64_t lo = gc_histogram_bucket_min_val(prec, c);
    mc_check(nx - lo <= 1 || ((nx - lo) << prec) <= lo * 1, "bucket %zu is too wide (bits %lu, precision %lu)", c, bits, prec);
  } else
    mc_check(v >= (1ull << (bits < 63 ? bits : 63)) || v >= gc_histogram_bucket_min_val(prec, c), "value %lu overflows", v);
}
DEFINE_FREELIST(fl_big, 63, 2, void*);
DEFINE_FREELIST(fl_small, 8, 1, void*);
static void classes(void) {
  int prec = mc_choose(7);
  static const int bitss[] = { 4, 8, 15, 25, 32, 40, 63 };
  int bits = bitss[mc_choose(7)];
  for (uint64_t v = 0; v < (1 << 20); v++) class1(v, bits, prec);
  for (int i = 0; i < 64; i++)
    for (int j = 0; j <= i; j++)
      for (int d = -2; d <= 2; d++)
        for (int s = -1; s <= 1; s++) {
          uint64_t v = (1ull << i) + s * (j < i ? (1ull << j) : 0) + d;
          if (v < (1ull << 63)) class1(v, bits, prec);
        }
  size_t prev = 0;
  for (size_t c = 0; c < ((size_t)(bits - prec > 0 ? bits - prec : 1) << prec); c++) {
    uint64_t lo = gc_histogram_bucket_min_val(prec, c);
    mc_check(c == 0 || lo > prev, "bucket minima do not increase at %zu", c); prev = lo;
    mc_check(gc_histogram_bucket(bits, prec, lo) == c, "bucket %zu does not contain its own minimum", c);
    mc_transition();
  }
  struct fl_big *b = malloc(sizeof *b); fl_big_init(b);
  struct fl_small *q = malloc(sizeof *q); fl_small_init(q);
  for (size_t i = 0; i < fl_big_num_size_classes(); i++) mc_check(b->buckets[i] == NULL, "a new freelist is not empty");
  for (uint64_t v = 0; v < 70000; v++) {
    mc_check(fl_big_bucket(b, v) == &b->buckets[fl_big_size_class(v)] && fl_big_bucket_min_val(fl_big_size_class(v)) <= v, "freelist bucket of %lu", v);
    mc_check(fl_small_bucket(q, v) < &q->buckets[fl_small_num_size_classes()], "freelist bucket of %lu out of bounds", v);
  }
  for (int a = 0; a < 20; a++)
    for (uint64_t v = 0; v < 4096; v++) {
      uint64_t al = 1ull << a, up = align_up(v, al), dn = align_down(v, al);
      mc_check(up >= v && up - v < al && up % al == 0, "align_up(%lu, %lu)", v, al);
      mc_check(dn <= v && v - dn < al && dn % al == 0, "align_down(%lu, %lu)", v, al);
    }
  mc_state(prec * 64 + bits); mc_outcome(prec * 64 + bits);
}

// ---- extents: every sequence of adjoining disjoint ranges, by explicit-state search
#define U 11
struct est { uint16_t cap, n; uint8_t lo[U], hi[U], covered[U + 2]; };
static void ext(void) {
  int unit = 1 << (mc_choose(2) * 12), cap0 = (int[]){ 1, 2, 10 }[mc_choose(3)];
  size_t max = mc_opt("max", 60000);
  struct states S; states_init(&S, sizeof(struct est));
  struct est s; memset(&s, 0, sizeof s); s.cap = cap0; states_add(&S, &s);
  struct extents *e0 = extents_allocate(cap0);
  mc_check(e0->size == 0 && e0->capacity == (size_t)cap0, "extents_allocate");
  for (int a = 0; a < U; a++) mc_check(!extents_contain_addr(e0, a * unit), "new extents contain an address");
  free(e0);
  size_t i;
  for (i = 0; i < S.n && S.n < max; i++)
    for (int lo = 1; lo <= U; lo++)
      for (int hi = lo + 1; hi <= U + 1; hi++) {
        memcpy(&s, states_at(&S, i), sizeof s);
        int over = 0;
        for (int a = lo; a < hi; a++) over |= s.covered[a];
        if (over) break;
        struct extents *e = extents_allocate(s.cap);
        e->size = s.n;
        for (int j = 0; j < s.n; j++) e->ranges[j] = (struct extent_range){ (uintptr_t)s.lo[j] * unit, (uintptr_t)s.hi[j] * unit };
        e = extents_adjoin(e, (void*)((uintptr_t)lo * unit), (size_t)(hi - lo) * unit);
        mc_transition();
        for (int a = lo; a < hi; a++) s.covered[a] = 1;
        for (int a = 0; a <= U + 1; a++)
          for (int d = 0; d < 3; d++) {
            uintptr_t addr = (uintptr_t)a * unit + (d == 0 ? 0 : d == 1 ? unit / 2 : unit - 1);
            mc_check(!!extents_contain_addr(e, addr) == s.covered[a], "extents wrongly %s %lx", s.covered[a] ? "lack" : "contain", addr);
          }
        mc_check(e->size <= e->capacity && e->size <= U, "extents overflow");
        s.cap = e->capacity; s.n = e->size; memset(s.lo, 0, sizeof s.lo); memset(s.hi, 0, sizeof s.hi);
        for (size_t j = 0; j < e->size; j++) { s.lo[j] = e->ranges[j].lo_addr / unit; s.hi[j] = e->ranges[j].hi_addr / unit; }
        states_add(&S, &s);
        free(e);
      }
  mc_count(i == S.n);
  mc_log("%zu extents, %s", S.n, i == S.n ? "all reachable" : "limit reached");
  mc_outcome(S.n * 64 + unit + cap0);
}

// ---- hashing: inverse both ways on every word with up to three bits set or clear,
// and on every word of contiguous ranges at several scales
static void h1(uintptr_t x) {
  mc_transition();
  mc_check(unhash_address(hash_address(x)) == x, "unhash(hash(%lx)) != itself", x);
  mc_check(hash_address(unhash_address(x)) == x, "hash(unhash(%lx)) != itself", x);
}
static void hash(void) {
  int sh = mc_choose(8);
  for (uintptr_t x = 0; x < (1 << 20); x++) h1(x << (sh * 6));
  for (int i = sh; i < 64; i += 8)
    for (int j = 0; j <= i; j++)
      for (int k = 0; k <= j; k++) { uintptr_t x = 1ull << i | 1ull << j | 1ull << k; h1(x); h1(~x); }
  mc_state(sh); mc_outcome(sh);
}

void mc_harness(void) {
  const char *p = mc_optstr("part", "scan");
  if (!strcmp(p, "scan")) scan();
  else if (!strcmp(p, "word")) word();
  else if (!strcmp(p, "class")) classes();
  else if (!strcmp(p, "extents")) ext();
  else hash();
}
