// Shared by the component harnesses: hashing, and an explicit-state visited set.
#ifndef COMP_H
#define COMP_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "mc.h"

static uint64_t comp_hash(const void *p, size_t n) {
  const uint8_t *b = p; uint64_t h = 0x9e3779b97f4a7c15ull ^ n;
  for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; h ^= h >> 29; }
  h ^= h >> 32; h *= 0xd6e8feb86659fd93ull; h ^= h >> 32;
  return h ? h : 1;
}

// States are byte strings of one fixed size, kept in order of discovery (breadth
// first); the index is a hash table of full states (no hash compaction).
struct states { size_t sz, n, cap, icap; uint8_t *data; uint32_t *idx; };
static void states_init(struct states *s, size_t sz) {
  s->sz = sz; s->n = 0; s->cap = 1024; s->icap = 4096;
  s->data = malloc(s->cap * sz);
  s->idx = calloc(s->icap, sizeof *s->idx);
}
static uint8_t *states_at(struct states *s, size_t i) { return s->data + i * s->sz; }
static int states_add(struct states *s, const void *st) {
  if (s->n * 2 >= s->icap) {
    free(s->idx); s->icap *= 2;
    s->idx = calloc(s->icap, sizeof *s->idx);
    for (size_t i = 0; i < s->n; i++) {
      size_t j = comp_hash(states_at(s, i), s->sz) & (s->icap - 1);
      while (s->idx[j]) j = (j + 1) & (s->icap - 1);
      s->idx[j] = i + 1;
    }
  }
  uint64_t h = comp_hash(st, s->sz);
  size_t j = h & (s->icap - 1);
  while (s->idx[j]) {
    if (!memcmp(states_at(s, s->idx[j] - 1), st, s->sz)) return 0;
    j = (j + 1) & (s->icap - 1);
  }
  if (s->n == s->cap) {
    uint8_t *d = malloc(s->cap * 2 * s->sz);
    memcpy(d, s->data, s->cap * s->sz); free(s->data);
    s->data = d; s->cap *= 2;
  }
  memcpy(states_at(s, s->n), st, s->sz);
  s->idx[j] = ++s->n;
  mc_state(h);
  return 1;
}
#endif
