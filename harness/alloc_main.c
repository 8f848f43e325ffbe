/* link: alloc.o rpmalloc.o */
/* The allocation layer against a record of what is live.
 * args: mode (single|threads|reuse|limits) seed rounds operations */
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include "h.h"
#include "alloc.h"

#ifdef USE_RPMALLOC
#define THREAD_BEGIN() rpmalloc_thread_initialize()
#define THREAD_END() rpmalloc_thread_finalize()
#define ALIGN 16
#else
#define THREAD_BEGIN() (void)0
#define THREAD_END() (void)0
#define ALIGN 16
#endif

typedef struct { unsigned char *p; size_t n; uint64_t id; } block;
static uint64_t ids = 1, cases;
static h_set seen;

static size_t size_class(size_t n) { size_t c = 0; while (n >> c) c++; return c * 4 + (c > 2 ? (n >> (c - 3)) & 3 : 0); }

static size_t draw(uint64_t *st) {
    static const size_t edges[] = {1, 15, 16, 17, 31, 32, 33, 48, 64, 1008, 1024, 1025, 2047, 2048, 4096, 8192, 32640, 32641, 32704, 32736, 32768, 65408, 65424,
                                   65432, 65440, 65472, 65504, 65536, 65537, 130944, 131072, 200000, 1 << 20, 2097024, 2097152, 2097153, 2228224, 5 << 20};
    uint64_t r = h_next(st) >> 20;
    size_t n;
    switch (r % 10) {
        case 0: case 1: n = edges[(r >> 8) % (sizeof(edges)/sizeof(*edges))] + (r >> 20) % 3; if (n > 1) n--; break;
        case 2: case 3: case 4: n = 1 + (r >> 8) % 300; break;
        case 5: case 6: n = 1 + (r >> 8) % 4000; break;
        case 7: case 8: n = 1 + (r >> 8) % 66000; break;
        default: n = 1 + (r >> 8) % 400000;
    }
    if (n > 600000 && (r >> 40) % 4) n >>= 5;
    return n;
}

static inline uint64_t word(uint64_t id, size_t i) { return (id * 0x9E3779B97F4A7C15ULL + i * 0xD1B54A32D192ED03ULL) | 0x0101010101010101ULL; }

static void fill(block *b, size_t from) {
    size_t i = from;
    for (; i < b->n && (i & 7); i++) b->p[i] = (unsigned char)(word(b->id, i / 8) >> (8 * (i & 7)));
    for (; i + 8 <= b->n; i += 8) { uint64_t w = word(b->id, i / 8); memcpy(b->p + i, &w, 8); }
    for (; i < b->n; i++) b->p[i] = (unsigned char)(word(b->id, i / 8) >> (8 * (i & 7)));
}

static void verify(const block *b, size_t upto, const char *what) {
    size_t i;
    for (i = 0; i + 8 <= upto; i += 8) { uint64_t w = word(b->id, i / 8); if (memcmp(b->p + i, &w, 8)) break; }
    for (; i < upto; i++)
        if (b->p[i] != (unsigned char)(word(b->id, i / 8) >> (8 * (i & 7))))
            h_fail("alloc:contents", "%s: byte %zu of a live block of %zu bytes has changed", what, i, b->n);
}

static void zeroed(const unsigned char *p, size_t from, size_t to, const char *what) {
    size_t i;
    for (i = from; i < to; i++) if (p[i]) h_fail("alloc:zeroed", "%s: byte %zu of %zu is %02x", what, i, to, p[i]);
}

static void aligned(const void *p, const char *what, size_t n) {
    if ((uintptr_t)p % ALIGN) h_fail("alloc:aligned", "%s(%zu) returned %p", what, n, p);
}

static void got(const void *p, const char *what, size_t n) {
    if (! p) h_fail("alloc:failed", "%s(%zu) returned nothing", what, n);
    aligned(p, what, n);
}

/* one more block, by any of the ways to obtain one */
static void obtain(block *b, uint64_t *st, uint64_t id) {
    size_t n = draw(st);
    b->n = n;
    b->id = id;
    switch ((h_next(st) >> 30) % 5) {
        case 0: case 1: b->p = WSS_malloc(n); got(b->p, "malloc", n); zeroed(b->p, 0, n, "malloc"); break;
        case 2: {
            size_t k = 1 + (h_next(st) >> 30) % 48, m = (n + k - 1) / k;
            if (h_next(st) >> 63) { size_t t = k; k = m; m = t; }
            b->n = m * k;
            b->p = WSS_calloc(m, k);
            got(b->p, "calloc", m * k);
            zeroed(b->p, 0, m * k, "calloc");
            break;
        }
        case 3: {
            block s;
            s.n = n; s.id = id;
            s.p = WSS_malloc(n);
            got(s.p, "malloc", n);
            fill(&s, 0);
            b->p = WSS_copy(s.p, n);
            got(b->p, "copy", n);
            if (b->p < s.p + n && s.p < b->p + n) h_fail("alloc:overlap", "a copy of %zu bytes overlaps what it is a copy of", n);
            verify(b, n, "copy");
            memset(s.p, 0xee, n);
            verify(b, n, "copy, after writing to the source");
            WSS_free_normal(s.p);
            break;
        }
        default: {
            void *none = NULL;
            b->p = (h_next(st) >> 63) ? WSS_realloc(&none, 0, n) : WSS_realloc(NULL, 0, n);
            got(b->p, "realloc of nothing", n);
            zeroed(b->p, 0, n, "realloc of nothing");
        }
    }
    fill(b, 0);
}

static void resize(block *b, uint64_t *st) {
    size_t old = b->n, n = draw(st), keep;
    void *p = b->p;
    if ((h_next(st) >> 30) % 4 == 0) n = old + (h_next(st) >> 30) % 40;
    if ((h_next(st) >> 30) % 4 == 0 && old > 1) n = old - (h_next(st) >> 30) % (old < 40 ? old : 40);
    if (n == 0) n = 1;
    keep = old < n ? old : n;
    if ((h_next(st) >> 30) % 5 == 0) {
        b->p = WSS_realloc_normal(b->p, n);
        got(b->p, "realloc", n);
    } else {
        b->p = WSS_realloc(&p, old, n);
        got(b->p, "realloc", n);
        zeroed(b->p, keep, n, "realloc");
    }
    verify(b, keep, "realloc");
    b->n = n;
    fill(b, keep);
}

static void release(block *b, uint64_t *st) {
    void *p = b->p;
    verify(b, b->n, "free");
    switch ((h_next(st) >> 30) % 4) {
        case 0: WSS_free_normal(b->p); break;
        case 1:
            if (WSS_realloc(&p, b->n, 0) != NULL) h_fail("alloc:cleared", "realloc to 0 returned something");
            if (p) h_fail("alloc:cleared", "realloc to 0 leaves the pointer");
            break;
        default:
            WSS_free(&p);
            if (p) h_fail("alloc:cleared", "free leaves the pointer");
    }
    b->p = NULL;
}

/* ---------------------------------------------------------------- single */

#define LIVE 400
static block bs[LIVE];

static int by_address(const void *a, const void *b) {
    const block *x = *(const block **)a, *y = *(const block **)b;
    return x->p < y->p ? -1 : x->p > y->p;
}

static void overlap(block *v, int n) {
    static const block *o[4096];
    int i, k = 0;
    for (i = 0; i < n; i++) if (v[i].p) o[k++] = &v[i];
    qsort(o, k, sizeof(*o), by_address);
    for (i = 0; i + 1 < k; i++)
        if (o[i]->p + o[i]->n > o[i+1]->p) h_fail("alloc:overlap", "%zu bytes at %p and %zu bytes at %p are both live", o[i]->n, (void *)o[i]->p, o[i+1]->n, (void *)o[i+1]->p);
}

static void single(int ops) {
    uint64_t st = h_rand() | 1, trace = 0;
    int bias = 1 + h_below(9), slots = 1 + h_below(LIVE), i;
    while (ops-- > 0) {
        block *b = &bs[(h_next(&st) >> 30) % slots];
        int op = (h_next(&st) >> 30) % 10;
        size_t was = b->p ? size_class(b->n) : 0;
        if (! b->p) { if (op < bias) { obtain(b, &st, ids++); op = 0; } else continue; }
        else if (op < 4) { resize(b, &st); op = 1; }
        else { release(b, &st); op = 2; }
        cases++;
        trace = (trace << 12 | (op * 1024 + was * 7 + (b->p ? size_class(b->n) : 0))) & 0xffffffffffffULL;
        h_add(&seen, trace);
        if (ops % 256 == 0) overlap(bs, slots);
    }
    overlap(bs, slots);
    for (i = 0; i < LIVE; i++) if (bs[i].p) release(&bs[i], &st);
}

/* --------------------------------------------------------------- threads */

#define MAXT 12
#define SHARED 64
static block *shared[SHARED];
static uint64_t round_seed;
static int per;

static block *swap(int i, block *b) { return __atomic_exchange_n(&shared[i], b, __ATOMIC_ACQ_REL); }

static uint64_t crossed, owned;
static pthread_mutex_t seen_lock = PTHREAD_MUTEX_INITIALIZER;

static void *churn(void *arg) {
    long me = (long)arg;
    uint64_t st = h_mix(round_seed, me + 1), id = (uint64_t)(me + 1) << 40 | (round_seed & 0xffffff) << 8, x = 0, o = 0, trace = me;
    block *own[32];
    int i, n = per / 2 + (h_next(&st) >> 30) % per, slots = 1 + (h_next(&st) >> 30) % 32, hold = (h_next(&st) >> 30) % 3;
    memset(own, 0, sizeof(own));
    THREAD_BEGIN();
    for (i = 0; i < n; i++) {
        int k = (h_next(&st) >> 30) % slots, op = (h_next(&st) >> 30) % 12;
        if (! own[k]) {
            own[k] = WSS_malloc(sizeof(block));
            got(own[k], "malloc", sizeof(block));
            zeroed((unsigned char *)own[k], 0, sizeof(block), "malloc");
            obtain(own[k], &st, id++);
            o++;
        } else if (op < 2) {
            resize(own[k], &st);
        } else if (op < 6) {
            release(own[k], &st);
            WSS_free((void **)&own[k]);
        } else {
            /* given to whoever comes along */
            block *b = swap((h_next(&st) >> 30) % SHARED, own[k]);
            own[k] = NULL;
            if (b) {
                verify(b, b->n, "taken over");
                x++;
                trace = h_mix(trace, b->id);
                if (op == 11) resize(b, &st);
                if (hold && op > 8) own[k] = b;
                else { release(b, &st); WSS_free((void **)&b); }
            }
        }
        if ((h_next(&st) >> 30) % 200 == 0) sched_yield();
    }
    /* what is left stays behind for others, or is released */
    for (i = 0; i < 32; i++) if (own[i]) {
        block *b = hold == 1 ? own[i] : swap((h_next(&st) >> 30) % SHARED, own[i]);
        if (b) { release(b, &st); WSS_free((void **)&b); }
    }
    THREAD_END();
    pthread_mutex_lock(&seen_lock);
    h_add(&seen, trace);
    pthread_mutex_unlock(&seen_lock);
    __atomic_add_fetch(&crossed, x, __ATOMIC_RELAXED);
    __atomic_add_fetch(&owned, o, __ATOMIC_RELAXED);
    return NULL;
}

static void threads(int n) {
    pthread_t t[MAXT];
    int k = 2 + h_below(MAXT - 2), i, alive = 0, total = k + h_below(2 * MAXT);
    per = n;
    round_seed = h_rand();
    for (i = 0; i < k; i++) pthread_create(&t[i], NULL, churn, (void *)(long)i);
    alive = k;
    /* threads end and others start all the time */
    for (i = k; i < total; i++) {
        int w = i % k;
        pthread_join(t[w], NULL);
        pthread_create(&t[w], NULL, churn, (void *)(long)i);
    }
    for (i = 0; i < k; i++) pthread_join(t[i], NULL);
    (void)alive;
    for (i = 0; i < SHARED; i++) {
        block *b = swap(i, NULL);
        if (b) { uint64_t st = i + 1; release(b, &st); WSS_free((void **)&b); }
    }
}

/* ----------------------------------------------------------------- reuse */

/* What one thread allocates and another one releases comes back into use. */
static size_t pages(void) {
    unsigned long v = 0, r = 0;
    FILE *f = fopen("/proc/self/statm", "r");
    if (f) { if (fscanf(f, "%lu %lu", &v, &r) != 2) r = 0; fclose(f); }
    return r;
}

typedef struct { int n; size_t len; void **v; int rounds; pthread_barrier_t *a, *b; int maker; } pair;

static void *half(void *arg) {
    pair *p = arg;
    int r, i;
    THREAD_BEGIN();
    for (r = 0; r < p->rounds; r++) {
        if (p->maker) for (i = 0; i < p->n; i++) { p->v[i] = WSS_malloc(p->len + (i * 7 + r) % (p->len / 2 + 1)); got(p->v[i], "malloc", p->len); }
        pthread_barrier_wait(p->a);
        if (! p->maker) for (i = 0; i < p->n; i++) WSS_free(&p->v[i]);
        pthread_barrier_wait(p->b);
    }
    THREAD_END();
    return NULL;
}

static void stage(int n, size_t len, int rounds) {
    pthread_barrier_t a, b;
    pthread_t t[2];
    pair p[2];
    void **v = calloc(n, sizeof(void *));
    int i;
    pthread_barrier_init(&a, NULL, 2);
    pthread_barrier_init(&b, NULL, 2);
    for (i = 0; i < 2; i++) {
        p[i] = (pair){n, len, v, rounds, &a, &b, i};
        pthread_create(&t[i], NULL, half, &p[i]);
    }
    for (i = 0; i < 2; i++) pthread_join(t[i], NULL);
    pthread_barrier_destroy(&a);
    pthread_barrier_destroy(&b);
    free(v);
    cases += (uint64_t)n * rounds;
}

static void reuse(int rounds) {
    static const size_t lens[] = {16, 40, 200, 1000, 3000, 9000, 40000, 90000, 500000, 2200000};
    size_t total = 8 << 20;
    int i;
    for (i = 0; i < 10; i++) {
        size_t first, last, n = total / (lens[i] * 5 / 4);
        if (n > 20000) n = 20000;
        if (n < 2) n = 2;
        /* threads that end leave their memory to those that come */
        stage(n, lens[i], rounds);
        first = pages();
        stage(n, lens[i], rounds);
        stage(n, lens[i], rounds);
        stage(n, lens[i], rounds);
        last = pages();
        if (last > first + (total >> 12)) h_fail("alloc:reuse", "blocks of %zu bytes: %zu pages after %d rounds, %zu after %d", lens[i], first, rounds, last, 4 * rounds);
        h_add(&seen, lens[i]);
    }
    h_count("reuse_pages", pages());
}

/* ---------------------------------------------------------------- limits */

static void limits(void) {
    static const size_t big[] = {SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 15, SIZE_MAX - 127, SIZE_MAX - 4096, SIZE_MAX - 65535, SIZE_MAX - 65536, SIZE_MAX / 2 + 1, SIZE_MAX / 2 - 5, (size_t)1 << 62, (size_t)1 << 50};
    unsigned i, k;
    void *p;
    if (WSS_malloc(0) || WSS_calloc(0, 5) || WSS_calloc(5, 0) || WSS_copy(NULL, 7)) h_fail("alloc:nothing", "an empty request returned something");
    for (i = 0; i < sizeof(big)/sizeof(*big); i++) {
        if (WSS_malloc(big[i])) h_fail("alloc:limits", "malloc(%zu) returned something", big[i]);
        p = WSS_malloc(100);
        if (WSS_realloc(&p, 100, big[i])) h_fail("alloc:limits", "realloc(%zu) returned something", big[i]);
        if (p) h_fail("alloc:cleared", "realloc(%zu) leaves the pointer", big[i]);
        for (k = 1; k < 64; k++) {
            if (k > 1 && big[i] < (size_t)1 << 51) continue;
            if (WSS_calloc(big[i], k) || WSS_calloc(k, big[i])) h_fail("alloc:limits", "calloc(%zu, %u) returned something", big[i], k);
            cases += 2;
        }
        for (k = 8; k < 60; k++) {
            size_t m = (SIZE_MAX >> k) + 1 + i;
            if (WSS_calloc(m, (size_t)1 << k)) h_fail("alloc:limits", "calloc(%zu, %zu) returned something", m, (size_t)1 << k);
            cases++;
        }
        cases += 2;
        h_add(&seen, big[i]);
    }
    p = NULL;
    WSS_free(&p);
    WSS_free_normal(NULL);
    if (p) h_fail("alloc:cleared", "free of nothing");
}

int main(int argc, char **argv) {
    int rounds = atoi(argv[3]), n = atoi(argv[4]), i;
    (void)argc;
    h_seed(strtoull(argv[2], NULL, 10));
    if (! strcmp(argv[1], "limits")) limits();
    else if (! strcmp(argv[1], "reuse")) reuse(rounds);
    else for (i = 0; i < rounds; i++) {
        if (! strcmp(argv[1], "single")) single(20 + h_below(n));
        else threads(20 + h_below(n));
    }
    cases += owned;
    h_count("blocks_from_other_threads", crossed);
    printf("SAMPLE %s, %llu operations\n", argv[1], (unsigned long long)cases);
    h_cases(cases, seen.n);
    printf("END\n");
    return 0;
}
