/* What the harnesses have in common: random numbers, and the lines through
 * which they report to vlib/harness.py
 *
 *   FAIL <key> <text>     the property does not hold
 *   COUNT <name> <n>      something that was observed
 *   CASES <n> <distinct>  evaluations of the oracle
 *   SAMPLE <text>
 *   END                   the harness came to its end
 */
#ifndef HARNESS_H
#define HARNESS_H
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#ifdef USE_RPMALLOC
/* weak: not every harness links the allocator */
extern int rpmalloc_initialize(void) __attribute__((weak));
__attribute__((constructor)) static void h_rpmalloc(void) { if (rpmalloc_initialize) rpmalloc_initialize(); }
#endif

static uint64_t h_state = 88172645463325252ULL;

static inline void h_seed(uint64_t s) {
    h_state = s * 6364136223846793005ULL + 1442695040888963407ULL;
    if (h_state == 0) h_state = 1;
}

static inline uint64_t h_next(uint64_t *st) {
    uint64_t x = *st;
    x ^= x >> 12; x ^= x << 25; x ^= x >> 27;
    *st = x;
    return x * 2685821657736338717ULL;
}
static inline uint64_t h_rand(void) { return h_next(&h_state) >> 11; }
/* uniform below n */
static inline uint64_t h_below(uint64_t n) { return n ? h_rand() % n : 0; }

static void h_hex(char *out, const unsigned char *p, size_t n) {
    size_t i;
    for (i = 0; i < n && i < 100; i++) sprintf(out + 2*i, "%02x", p[i]);
    out[2*i] = 0;
}

static void h_fail(const char *key, const char *fmt, ...) {
    va_list ap;
    printf("FAIL %s ", key);
    va_start(ap, fmt);
    vprintf(fmt, ap);
    va_end(ap);
    printf("\n");
    fflush(stdout);
    _Exit(1);
}

static inline void h_count(const char *name, uint64_t n) { printf("COUNT %s %llu\n", name, (unsigned long long)n); }
static inline void h_cases(uint64_t n, uint64_t distinct) { printf("CASES %llu %llu\n", (unsigned long long)n, (unsigned long long)distinct); }

/* distinct values, by a table of hashes */
typedef struct { uint64_t *t; size_t cap, n; } h_set;
static inline uint64_t h_mix(uint64_t a, uint64_t b) {
    uint64_t x = a * 0x9E3779B97F4A7C15ULL ^ (b + 0x7F4A7C15 + (a << 6) + (a >> 2));
    x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 29;
    return x ? x : 1;
}
static inline int h_add(h_set *s, uint64_t v) {
    size_t i;
    if (v == 0) v = 1;
    if (s->t == NULL) { s->cap = 1 << 20; s->t = calloc(s->cap, 8); }
    if (s->n * 2 > s->cap) return 0;
    for (i = v & (s->cap-1); s->t[i]; i = (i+1) & (s->cap-1)) if (s->t[i] == v) return 0;
    s->t[i] = v;
    s->n++;
    return 1;
}
#endif
