/* link: ringbuf.o */
/* The ring buffer: sequences of operations against a model, and concurrent
 * producers with one consumer.
 * args: mode (model|perm|temp|locked|bytes) seed rounds items */
#include <pthread.h>
#include <sched.h>
#include <sys/types.h>
#include "h.h"
#include "ringbuf.h"

#define MAXW 16
static uint64_t cases;
static h_set seen;

static ringbuf_t *make(unsigned n, unsigned t, size_t space) {
    size_t size, wsize;
    ringbuf_t *r;
    ringbuf_get_sizes(n, t, &size, &wsize);
    r = malloc(size);
    memset(r, 0xa5, size);
    if (ringbuf_setup(r, n, t, space) != 0) h_fail("ring:setup", "setup failed for %zu", space);
    return r;
}

/* ---------------------------------------------------------------- model */

typedef struct { size_t off, len; int produced, worker; uint64_t id; } item;

static void model(int ops) {
    unsigned np = h_below(4), nt = h_below(4), i;
    size_t space = 2 + (h_below(2) ? h_below(6) : h_below(60)), maxlen, w = 0, next = 0;
    static item q[4096];
    int head = 0, tail = 0, wrapped = 0;
    ringbuf_worker_t *perm[MAXW], *tmp[MAXW];
    int busy[2*MAXW];
    uint64_t trace = space * 131 + np * 7 + nt, id = 0;
    int unit = h_below(2);
    size_t end = space;     /* where the data before the wrap ends */
    ringbuf_t *r;
    if (np + nt == 0) nt = 1;
    r = make(np, nt, space);
    for (i = 0; i < np; i++) perm[i] = ringbuf_register(r, i);
    memset(busy, 0, sizeof(busy));
    memset(tmp, 0, sizeof(tmp));
    maxlen = unit ? 1 : space;
    while (ops-- > 0 && tail < 4000) {
        int op = h_below(10);
        trace = h_mix(trace, op);
        if (op < 5) {
            /* a worker that has nothing in hand asks for space */
            unsigned k = h_below(np + nt);
            size_t len = 1 + h_below(maxlen > 4 && h_below(3) ? maxlen / 4 + 1 : maxlen);
            ssize_t off;
            size_t at, to;
            int fits = 1;
            ringbuf_worker_t *none = NULL, **pw;
            if (busy[k]) {
                if (k < np) continue;
                /* another temporary worker than there are records */
                for (i = np; i < np + nt; i++) if (! busy[i]) break;
                if (i < np + nt) continue;
                if (ringbuf_acquire(r, &none, 1) != -1) h_fail("ring:records", "space was given to a producer although all %u records are in use", nt);
                h_add(&seen, trace);
                cases++;
                continue;
            }
            /* where it must go: behind the last item, else to the beginning */
            at = next;
            to = next + len;
            if (next < w || wrapped) {
                if (to >= w) fits = 0;
            } else if (to > space) {
                at = 0; to = len;
                if (to >= w) fits = 0;
            } else if (to == space) {
                to = 0;
                if (w == 0) fits = 0;
            }
            pw = k < np ? &perm[k] : &tmp[k];
            off = ringbuf_acquire(r, pw, len);
            cases++;
            trace = h_mix(trace, len * 2 + (off >= 0));
            if (off < 0) {
                if (fits) h_fail("ring:refused", "%zu of %zu refused with next=%zu written=%zu, %d items", len, space, next, w, tail - head);
                if (k >= np && tmp[k]) h_fail("ring:record", "a refused producer keeps its record");
                continue;
            }
            if (! fits) h_fail("ring:overwrite", "%zu granted at %zd, space %zu next=%zu written=%zu", len, off, space, next, w);
            if ((size_t)off != at) h_fail("ring:offset", "granted %zd instead of %zu (space %zu next %zu written %zu len %zu)", off, at, space, next, w, len);
            for (i = head; i < (unsigned)tail; i++)
                if ((size_t)off < q[i].off + q[i].len && q[i].off < off + len) h_fail("ring:overlap", "%zd+%zu overlaps %zu+%zu", off, len, q[i].off, q[i].len);
            if (at != next) { wrapped = 1; end = next; } else if (to == 0) { wrapped = 1; end = space; }
            next = to;
            q[tail].off = off; q[tail].len = len; q[tail].produced = 0; q[tail].worker = k; q[tail].id = id++;
            tail++;
            busy[k] = 1;
        } else if (op < 8) {
            /* one of the pending items is completed */
            int c = 0, pick;
            for (i = head; i < (unsigned)tail; i++) c += ! q[i].produced;
            if (! c) continue;
            pick = h_below(c);
            for (i = head; i < (unsigned)tail; i++) if (! q[i].produced && pick-- == 0) break;
            ringbuf_produce(r, q[i].worker < (int)np ? &perm[q[i].worker] : &tmp[q[i].worker]);
            if (q[i].worker >= (int)np && tmp[q[i].worker]) h_fail("ring:record", "a temporary producer keeps its record");
            q[i].produced = 1;
            busy[q[i].worker] = 0;
            trace = h_mix(trace, i - head);
        } else {
            size_t off = 9999, len = ringbuf_consume(r, &off), sum = 0, part;
            int n = 0;
            /* not before the producer that wrapped around is done */
            if (wrapped && w == end && (head == tail || q[head].produced)) { w = 0; wrapped = 0; end = space; }
            cases++;
            if (len == 0) {
                if (head < tail && q[head].produced) h_fail("ring:lost", "nothing to consume although the first of %d items is complete (space %zu written %zu next %zu)", tail - head, space, w, next);
                continue;
            }
            if (head == tail) h_fail("ring:invented", "%zu to consume from an empty ring", len);
            if (off != q[head].off) h_fail("ring:order", "consumption at %zu, first item is at %zu", off, q[head].off);
            while (sum < len) {
                item *x = &q[head + n];
                if (head + n >= tail) h_fail("ring:invented", "more to consume than was acquired");
                if (x->off != off + sum) h_fail("ring:order", "item at %zu instead of %zu", x->off, off + sum);
                if (! x->produced) h_fail("ring:early", "an item that is not complete is to be consumed");
                sum += x->len;
                n++;
            }
            if (sum != len) h_fail("ring:partial", "%zu to consume, items are %zu", len, sum);
            if (head + n < tail && q[head+n].produced && q[head+n].off == off + len) h_fail("ring:short", "consumption stops before a complete item");
            /* release all or some of it */
            part = h_below(4) ? (size_t)n : h_below(n + 1);
            for (sum = 0, i = 0; i < part; i++) sum += q[head + i].len;
            ringbuf_release(r, sum);
            head += part;
            w = off + sum;
            if (w == space) { w = 0; wrapped = 0; end = space; }
            trace = h_mix(trace, 1000 + n * 10 + part);
        }
        h_add(&seen, trace);
    }
    free(r);
}

/* ----------------------------------------------------------- concurrent */

static ringbuf_t *ring;
static size_t space;
static int producers, items, mode;
static volatile uint64_t *slots;
static unsigned char *bytes;
static int success, inprogress, refusals;
static int released;
static pthread_mutex_t biglock = PTHREAD_MUTEX_INITIALIZER;
static uint64_t round_seed;
static pthread_barrier_t gate;

enum { PERM, TEMP, LOCKED, BYTES };
#define LD(x) __atomic_load_n(&(x), __ATOMIC_SEQ_CST)
#define ADD(x, n) __atomic_add_fetch(&(x), n, __ATOMIC_SEQ_CST)

static void pause_(uint64_t *st) {
    uint64_t k = (h_next(st) >> 20) % 64;
    volatile int i;
    if (k < 2) sched_yield();
    else if (k < 12) for (i = 0; i < (int)k * 8; i++) {}
}

static unsigned char fill(uint64_t id, size_t i) { return (unsigned char)(h_mix(id, i) | 1); }

static void *producer(void *arg) {
    long p = (long)arg;
    uint64_t st = h_mix(round_seed, p + 1);
    ringbuf_worker_t *w = NULL;
    int i;
    if (mode == PERM || (mode == BYTES && p % 2)) w = ringbuf_register(ring, p);
    pthread_barrier_wait(&gate);
    for (i = 0; i < items; i++) {
        uint64_t id = ((uint64_t)(p + 1) << 32) | (uint32_t)(i + 1);
        size_t len = mode == BYTES ? 12 + (h_next(&st) >> 30) % 60 : 1, k;
        ssize_t off;
        for (;;) {
            int rel, fail;
            if (mode == LOCKED) pthread_mutex_lock(&biglock);
            rel = LD(released);
            ADD(inprogress, 1);
            off = ringbuf_acquire(ring, &w, len);
            if (off >= 0) ADD(success, 1);
            fail = LD(success) + LD(inprogress) - 1 - rel;
            ADD(inprogress, -1);
            if (off >= 0) break;
            ADD(refusals, 1);
            if (mode == LOCKED && fail < (int)space - 1)
                h_fail("ring:refused", "space refused with at most %d of %zu in use", fail, space);
            if (mode == LOCKED) pthread_mutex_unlock(&biglock);
            sched_yield();
        }
        if (mode == BYTES) {
            if (off + len > space) h_fail("ring:overwrite", "%zd+%zu of %zu", off, len, space);
            for (k = 0; k < len; k++) if (bytes[off+k]) h_fail("ring:overwrite", "the space given to producer %ld holds data not yet released", p);
            for (k = 12; k < len; k++) { bytes[off+k] = fill(id, k); if (k == 30) pause_(&st); }
            uint32_t l = len;
            memcpy(bytes + off, &id, 8);
            memcpy(bytes + off + 8, &l, 4);
        } else {
            if ((size_t)off >= space) h_fail("ring:overwrite", "offset %zd of %zu", off, space);
            if (slots[off]) h_fail("ring:overwrite", "the place given to producer %ld holds an item not yet released", p);
            if (mode != LOCKED) pause_(&st);
            slots[off] = id;
        }
        ringbuf_produce(ring, &w);
        if (mode == LOCKED) pthread_mutex_unlock(&biglock);
        if ((mode == TEMP || mode == LOCKED) && w) h_fail("ring:record", "a temporary producer keeps its record");
        pause_(&st);
    }
    return NULL;
}

static void consume_all(void) {
    int total = producers * items, got = 0, *last = calloc(producers, sizeof(int));
    uint64_t st = round_seed, trace = 0;
    long idle = 0;
    while (got < total) {
        size_t off, len, k;
        int n = 0;
        if (mode == LOCKED) pthread_mutex_lock(&biglock);
        len = ringbuf_consume(ring, &off);
        if (len == 0) {
            if (mode == LOCKED) pthread_mutex_unlock(&biglock);
            if (++idle > 20000000) h_fail("ring:lost", "%d of %d items arrived, nothing more comes", got, total);
            if (idle % 64 == 0) sched_yield();
            continue;
        }
        idle = 0;
        if (off + len > space) h_fail("ring:invented", "%zu+%zu of %zu", off, len, space);
        for (k = 0; k < len;) {
            uint64_t id;
            long p;
            int s;
            size_t l = 1, j;
            if (mode == BYTES) {
                uint32_t l4;
                memcpy(&id, bytes + off + k, 8);
                memcpy(&l4, bytes + off + k + 8, 4);
                l = l4;
                if (l < 12 || k + l > len) h_fail("ring:early", "an item of length %zu where %zu are left of the range", l, len - k);
                for (j = 12; j < l; j++) if (bytes[off+k+j] != fill(id, j)) h_fail("ring:early", "byte %zu of an item is not written", j);
            } else id = slots[off + k];
            if (id == 0) h_fail("ring:early", "an item was consumed before it was written");
            p = (long)(id >> 32) - 1;
            s = (int)(uint32_t)id;
            if (p < 0 || p >= producers) h_fail("ring:garbled", "item %llx", (unsigned long long)id);
            if (s != last[p] + 1) h_fail(s <= last[p] ? "ring:twice" : "ring:lost", "item %d of producer %ld after item %d", s, p, last[p]);
            last[p] = s;
            trace = (trace << 4 | p) & 0xffffffffffULL;
            h_add(&seen, h_mix(trace, space * 64 + producers));
            k += l;
            n++;
        }
        /* wipe, so that a premature grant or a second consumption is seen */
        if (mode == BYTES) memset(bytes + off, 0, len); else for (k = 0; k < len; k++) slots[off + k] = 0;
        ringbuf_release(ring, len);
        ADD(released, n);
        if (mode == LOCKED) pthread_mutex_unlock(&biglock);
        got += n;
        if (mode != LOCKED) pause_(&st);
    }
    {
        size_t off;
        if (ringbuf_consume(ring, &off) != 0) h_fail("ring:invented", "more items than were produced");
    }
    cases += got;
    free(last);
}

static void concurrent(int n) {
    static const int ps[] = {1, 2, 2, 3, 4, 4, 6, 8};
    pthread_t t[MAXW];
    long p;
    producers = ps[h_below(8)];
    items = n;
    space = mode == BYTES ? 150 + h_below(400) : (h_below(2) ? 2 + h_below(8) : 2 + h_below(200));
    ring = mode == PERM ? make(producers, 0, space) : mode == BYTES ? make(producers, producers * 4, space) :
           mode == TEMP ? make(0, producers * 4, space) : make(0, 1 + h_below(4), space);
    slots = calloc(space, sizeof(uint64_t));
    bytes = calloc(space, 1);
    success = inprogress = refusals = released = 0;
    round_seed = h_rand();
    pthread_barrier_init(&gate, NULL, producers + 1);
    for (p = 0; p < producers; p++) pthread_create(&t[p], NULL, producer, (void *)p);
    pthread_barrier_wait(&gate);
    consume_all();
    for (p = 0; p < producers; p++) pthread_join(t[p], NULL);
    pthread_barrier_destroy(&gate);
    h_count("refusals", refusals);
    h_count("items_consumed", (uint64_t)producers * items);
    free((void *)slots);
    free(bytes);
    free(ring);
}

int main(int argc, char **argv) {
    static const char *modes[] = {"perm", "temp", "locked", "bytes"};
    int rounds = atoi(argv[3]), n = atoi(argv[4]), i;
    (void)argc;
    h_seed(strtoull(argv[2], NULL, 10));
    mode = -1;
    for (i = 0; i < 4; i++) if (! strcmp(argv[1], modes[i])) mode = i;
    if (mode == -1) {
        ringbuf_t *r = malloc(4096);
        if (ringbuf_setup(r, 1, 1, 0xffffffffUL) != -1) h_fail("ring:setup", "a length that does not fit was accepted");
        free(r);
    }
    for (i = 0; i < rounds; i++) {
        if (mode == -1) model(20 + h_below(n));
        else concurrent(1 + h_below(n));
    }
    printf("SAMPLE %s, space %zu, %d producers\n", argv[1], space, producers);
    h_cases(cases, seen.n);
    printf("END\n");
    return 0;
}
