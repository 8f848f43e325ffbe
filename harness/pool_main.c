/* flags: -Wl,--wrap=pthread_create */
/* Thread pool under concurrent producers. Every task records that it ran.
 * args: seed, rounds, tasks */
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include "h.h"
#include "pool.h"
#include "server.h"
#include "event.h"

wss_error_t WSS_add_to_threadpool(wss_server_t *server, void (*func)(void *), void *args) __attribute__((weak));

#define MAXT 32
#define MAXP 16

int __real_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg);
static int fail_after = -1;
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
    if (fail_after == 0) return 11;
    if (fail_after > 0) fail_after--;
    return __real_pthread_create(t, a, f, arg);
}

typedef struct task {
    int producer, seq;
    int work;               /* kind of work */
    int accepted;           /* result of the add, 1 = accepted */
    int begun, done;        /* atomics */
} task;

static threadpool_t *pool;
static int threads, qsize, producers, per;
static task *tasks;
static int stopped, begun_adds, started, running, refused_full, refused_stop, executed;
static int started_of[MAXP];
static volatile int destroying, started_at_destroy;
static pthread_t pool_threads[MAXT * 4];
static int pool_nthreads;
static pthread_mutex_t seen_lock = PTHREAD_MUTEX_INITIALIZER;
static uint64_t cases;
static h_set seen;
static uint64_t trace[MAXP];
static uint64_t order = 1;
static int fifo_check;
static uint64_t round_seed;

#define LD(x) __atomic_load_n(&(x), __ATOMIC_SEQ_CST)
#define INC(x) __atomic_add_fetch(&(x), 1, __ATOMIC_SEQ_CST)
#define DEC(x) __atomic_sub_fetch(&(x), 1, __ATOMIC_SEQ_CST)

static __thread uint64_t rs;
static uint64_t rnd(uint64_t n) { return (h_next(&rs) >> 11) % n; }

static void spin(int kind) {
    struct timespec t = {0, 0};
    volatile int i;
    switch (kind & 7) {
        case 0: case 1: case 2: break;
        case 3: sched_yield(); break;
        case 4: for (i = 0; i < 2000; i++) {} break;
        case 5: t.tv_nsec = 20000; nanosleep(&t, NULL); break;
        case 6: t.tv_nsec = 200000; if (kind & 64) nanosleep(&t, NULL); break;
        default: for (i = 0; i < 200; i++) {} break;
    }
}

static void work(void *arg);

static int add(task *t) {
    int s0 = LD(started), before, r;
    INC(begun_adds);
    r = threadpool_add(pool, work, t, 0);
    before = LD(begun_adds);
    if (r == 0) {
        __atomic_store_n(&t->accepted, 1, __ATOMIC_SEQ_CST);
    } else if (r == threadpool_queue_full) {
        /* every add begun so far may have been accepted, and nothing may have
           been taken since */
        if (before - 1 - s0 < qsize)
            h_fail("pool:refused", "queue of %d was said to be full with at most %d tasks waiting", qsize, before - 1 - s0);
        INC(refused_full);
        __atomic_store_n(&t->accepted, 2, __ATOMIC_SEQ_CST);
    } else if (r == threadpool_shutdown) {
        if (! LD(destroying)) h_fail("pool:refused", "refused as shutting down, which it was not");
        INC(refused_stop);
        __atomic_store_n(&t->accepted, 3, __ATOMIC_SEQ_CST);
    } else h_fail("pool:result", "threadpool_add returned %d", r);
    return r;
}

static void work(void *arg) {
    task *t = arg;
    int n, i;
    if (LD(stopped)) h_fail("pool:after-stop", "a task ran after threadpool_destroy had returned");
    if (INC(t->begun) != 1) h_fail("pool:twice", "task %d of producer %d ran %d times", t->seq, t->producer, t->begun);
    if (LD(t->accepted) > 1) h_fail("pool:refused-ran", "a task that was refused ran");
    n = INC(running);
    if (n > threads) h_fail("pool:threads", "%d tasks run at the same time on %d threads", n, threads);
    INC(started);
    if (rs == 0) {
        rs = (uint64_t)pthread_self() * 77777 + 12345;
        pthread_mutex_lock(&seen_lock);
        pool_threads[pool_nthreads++] = pthread_self();
        if (pool_nthreads > threads) h_fail("pool:threads", "tasks ran on %d threads of %d", pool_nthreads, threads);
        pthread_mutex_unlock(&seen_lock);
    }
    /* all accepted earlier by the same producer have been taken from the queue,
       at most threads-1 of them are about to begin */
    n = LD(started_of[t->producer]);
    INC(started_of[t->producer]);
    if (fifo_check) {
        int missing = 0;
        for (i = t->seq - 1; i >= 0 && i >= t->seq - 4 * MAXT; i--) {
            task *o = tasks + t->producer * per + i;
            if (LD(o->accepted) == 1 && LD(o->begun) == 0) missing++;
        }
        if (missing > threads - 1)
            h_fail("pool:order", "task %d of producer %d begins while %d accepted before it have not (%d threads)", t->seq, t->producer, missing, threads);
    }
    pthread_mutex_lock(&seen_lock);
    order = h_mix(order, t->producer + 1);
    trace[0] = trace[0] * 17 + t->producer;
    h_add(&seen, h_mix(trace[0] & 0xffffffffffffULL, threads * 100 + qsize));
    pthread_mutex_unlock(&seen_lock);
    spin(t->work);
    if (LD(stopped)) h_fail("pool:after-stop", "threadpool_destroy returned while a task was running");
    INC(executed);
    DEC(running);
    INC(t->done);
}

static void *produce(void *arg) {
    long p = (long)arg;
    int i;
    rs = round_seed * 31 + p + 1;
    for (i = 0; i < per; i++) {
        task *t = tasks + p * per + i;
        t->producer = p;
        t->seq = i;
        t->work = rnd(256);
        while (add(t) == threadpool_queue_full) {
            if (rnd(10) == 0) break;
            t->accepted = 0;
            spin(rnd(256));
        }
        if (rnd(8) == 0) spin(rnd(256));
    }
    return NULL;
}

/* tasks which hand over further tasks, also while the pool stops */
static void chain(void *arg) {
    task *t = arg;
    work(t);
    if (t->seq + 1 < per) {
        task *c = t + 1;
        c->producer = t->producer;
        c->seq = t->seq + 1;
        c->work = rnd(256);
        INC(running);
        INC(begun_adds);
        int r = threadpool_add(pool, chain, c, 0);
        if (r == 0) __atomic_store_n(&c->accepted, 1, __ATOMIC_SEQ_CST);
        else if (r == threadpool_shutdown) {
            if (! LD(destroying)) h_fail("pool:refused", "refused as shutting down, which it was not");
            INC(refused_stop);
            __atomic_store_n(&c->accepted, 3, __ATOMIC_SEQ_CST);
        } else if (r != threadpool_queue_full) h_fail("pool:result", "threadpool_add returned %d", r);
        DEC(running);
    }
}

static void reset(void) {
    memset(tasks, 0, sizeof(task) * (size_t)producers * per);
    stopped = begun_adds = started = running = executed = 0;
    destroying = 0;
    pool_nthreads = 0;
    memset(started_of, 0, sizeof(started_of));
}

static int accepted_count(int *lost) {
    int i, n = 0;
    *lost = 0;
    for (i = 0; i < producers * per; i++)
        if (tasks[i].accepted == 1) { n++; if (tasks[i].done != 1) (*lost)++; }
        else if (tasks[i].begun) h_fail("pool:refused-ran", "task %d ran although it was not accepted", i);
    return n;
}

static void stop(int graceful) {
    int r;
    __atomic_store_n(&destroying, 1, __ATOMIC_SEQ_CST);
    started_at_destroy = LD(started);
    r = threadpool_destroy(pool, graceful ? threadpool_graceful : 0);
    __atomic_store_n(&stopped, 1, __ATOMIC_SEQ_CST);
    if (r != 0) h_fail("pool:destroy", "threadpool_destroy returned %d", r);
    if (LD(running)) h_fail("pool:after-stop", "%d tasks run after the stop", running);
}

static void round_normal(int graceful) {
    pthread_t t[MAXP];
    long p;
    int n, lost;
    reset();
    pool = threadpool_create(threads, qsize, 2097152, 0);
    if (! pool) h_fail("pool:create", "threadpool_create failed");
    fifo_check = 1;
    round_seed = h_rand();
    for (p = 0; p < producers; p++) __real_pthread_create(&t[p], NULL, produce, (void *)p);
    for (p = 0; p < producers; p++) pthread_join(t[p], NULL);
    if (! graceful && h_below(2)) {     /* else stop with work left */
        struct timespec ts = {0, 1000000};
        nanosleep(&ts, NULL);
    }
    stop(graceful);
    n = accepted_count(&lost);
    if (graceful && lost) h_fail("pool:lost", "%d of %d accepted tasks were not executed by a graceful stop", lost, n);
    if (! graceful && LD(started) - started_at_destroy > threads)
        h_fail("pool:immediate", "%d tasks were begun after an immediate stop was asked for (%d threads)", started - started_at_destroy, threads);
    cases += n;
    h_count(graceful ? "graceful_stops" : "immediate_stops", 1);
    h_count("tasks_executed", executed);
    h_count("tasks_dropped_by_stop", lost);
}

static void round_chain(int graceful) {
    struct timespec ts = {0, (long)h_below(400000)};
    long p;
    int n, lost;
    reset();
    fifo_check = 0;
    pool = threadpool_create(threads, qsize < producers ? producers : qsize, 2097152, 0);
    if (! pool) h_fail("pool:create", "threadpool_create failed");
    for (p = 0; p < producers; p++) {
        task *t = tasks + p * per;
        t->producer = p;
        t->accepted = 1;
        INC(begun_adds);
        if (threadpool_add(pool, chain, t, 0) != 0) h_fail("pool:refused", "an empty queue refused a task");
    }
    if (h_below(3)) nanosleep(&ts, NULL);
    stop(graceful);
    n = accepted_count(&lost);
    if (graceful && lost) h_fail("pool:lost", "%d of %d accepted tasks were not executed by a graceful stop", lost, n);
    cases += n;
    h_count("chains", producers);
}

/* all threads held: exactly as many tasks as the queue has places are accepted */
static int hold, held;
static void block(void *arg) {
    (void)arg;
    INC(held);
    while (LD(hold)) { struct timespec ts = {0, 50000}; nanosleep(&ts, NULL); }
    DEC(held);
}
static int counted[4096], ncounted;
static void count(void *arg) {
    int i = INC(ncounted) - 1;
    counted[i] = (int)(long)arg;
}

static void hold_all(void) {
    int i;
    held = 0;
    hold = 1;
    for (i = 0; i < threads; i++) {
        if (threadpool_add(pool, block, NULL, 0) != 0) h_fail("pool:refused", "an empty queue refused a task");
        while (LD(held) <= i) sched_yield();
    }
}

static void round_full(int workers) {
    int i, r, extra = h_below(4) + 1, again;
    threads = workers;
    pool = threadpool_create(threads, qsize, 2097152, 0);
    for (again = 0; again < 3; again++) {
        hold_all();
        ncounted = 0;
        for (i = 0; i < qsize + extra; i++) {
            r = threadpool_add(pool, count, (void *)(long)i, 0);
            if (i < qsize && r != 0) h_fail("pool:refused", "task %d of a queue of %d was refused with %d", i, qsize, r);
            if (i >= qsize && r != threadpool_queue_full) h_fail("pool:overfull", "task %d of a queue of %d: %d", i, qsize, r);
        }
        if (threadpool_add(pool, NULL, NULL, 0) != threadpool_invalid) h_fail("pool:invalid", "a task without function was not refused");
        __atomic_store_n(&hold, 0, __ATOMIC_SEQ_CST);
        if (again == 2) break;
        while (LD(ncounted) < qsize || LD(held)) sched_yield();
    }
    threadpool_destroy(pool, threadpool_graceful);
    if (ncounted != qsize) h_fail("pool:lost", "%d of %d accepted tasks ran", ncounted, qsize);
    if (threads == 1) for (i = 0; i < qsize; i++) if (counted[i] != i) h_fail("pool:order", "task %d ran as number %d", counted[i], i);
    cases += qsize + extra;
    h_count("queues_filled", 1);
}

/* as many tasks as threads which all wait for each other: none may be left in
   the queue while a thread has nothing to do */
static int met;
static void meet(void *arg) {
    int n = (int)(long)arg, i;
    INC(met);
    for (i = 0; LD(met) < n; i++) {
        struct timespec ts = {0, 20000};
        if (i < 50) sched_yield(); else nanosleep(&ts, NULL);
        if (i > 600000) h_fail("pool:idle", "%d of %d tasks accepted by a pool of %d threads, all others of which are idle, were begun", LD(met), n, threads);
    }
    INC(held);
}

static void round_meet(int workers, int times) {
    int i, k, n;
    threads = workers;
    pool = threadpool_create(threads, threads + h_below(4), 2097152, 0);
    if (! pool) h_fail("pool:create", "threadpool_create failed");
    for (k = 0; k < times; k++) {
        met = held = 0;
        n = h_below(3) ? threads : 1 + (int)h_below(threads);
        for (i = 0; i < n; i++) {
            if (threadpool_add(pool, meet, (void *)(long)n, 0) != 0) h_fail("pool:refused", "an empty queue refused a task");
            if (h_below(5) == 0) spin(h_below(256));
        }
        if (k == times - 1 && h_below(2)) break;        /* stopped while they meet */
        for (i = 0; LD(held) < n; i++) {
            struct timespec ts = {0, 20000};
            if (i < 50) sched_yield(); else nanosleep(&ts, NULL);
            if (i > 900000) h_fail("pool:idle", "%d of %d tasks for %d threads were begun", LD(met), n, threads);
        }
        cases += n;
        h_count("tasks_meeting", n);
        h_add(&seen, h_mix(n * 100 + threads, k > 0));
    }
    threadpool_destroy(pool, threadpool_graceful);
    if (held != n) h_fail("pool:lost", "%d of %d accepted tasks ran", held, n);
}

static int later_done;
static void *later(void *arg) {
    struct timespec ts = {0, (long)arg * 1000000};
    while (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
    nanosleep(&ts, NULL);
    __atomic_store_n(&hold, 0, __ATOMIC_SEQ_CST);
    later_done = 1;
    return NULL;
}

/* the server's way of handing over work */
static void round_server(int ms, unsigned retries) {
    wss_server_t server;
    wss_config_t config;
    pthread_t t;
    int i, r, j;
    if (! WSS_add_to_threadpool) return;
    memset(&server, 0, sizeof(server));
    memset(&config, 0, sizeof(config));
    server.config = &config;
    config.pool_retries = retries;
    threads = 2;
    server.pool = pool = threadpool_create(threads, qsize, 2097152, 0);
    hold_all();
    ncounted = 0;
    for (i = 0; i < qsize; i++)
        if (WSS_add_to_threadpool(&server, count, (void *)(long)i) != WSS_SUCCESS) h_fail("pool:refused", "handing over to a queue with space failed");
    __real_pthread_create(&t, NULL, later, (void *)(long)ms);
    r = WSS_add_to_threadpool(&server, count, (void *)(long)i);
    if (r == WSS_SUCCESS) i++;
    else if (r != WSS_THREADPOOL_FULL_ERROR) h_fail("pool:handover", "WSS_add_to_threadpool returned %d", r);
    if (r != WSS_SUCCESS && (int)retries * 100 > ms + 2000) h_fail("pool:handover", "given up although the queue had space after %d ms (%u retries)", ms, retries);
    if (r == WSS_SUCCESS && ms > 100000) h_fail("pool:handover", "accepted although the queue was full");
    h_count(r == WSS_SUCCESS ? "handed_over_after_retry" : "handover_reported_full", 1);
    pthread_join(t, NULL);
    threadpool_destroy(pool, threadpool_graceful);
    if (ncounted != i) h_fail("pool:handover", "%d of %d tasks handed over ran", ncounted, i);
    for (j = 0; j < i; j++) { int k, c = 0; for (k = 0; k < i; k++) c += counted[k] == j; if (c != 1) h_fail("pool:handover", "task %d ran %d times", j, c); }
    cases++;
}

int main(int argc, char **argv) {
    int rounds = atoi(argv[2]), i, n = atoi(argv[3]);
    (void)argc;
    h_seed(strtoull(argv[1], NULL, 10));
    tasks = calloc((size_t)MAXP * n, sizeof(task));
    for (i = 0; i < rounds; i++) {
        static const int ts[] = {1, 1, 2, 2, 3, 4, 8, 16, 32}, qs[] = {1, 2, 3, 4, 7, 16, 64, 1024}, ps[] = {1, 1, 2, 4, 8, 16};
        threads = ts[h_below(9)];
        qsize = qs[h_below(8)];
        producers = ps[h_below(6)];
        per = 1 + h_below(n);
        round_normal(h_below(3) != 0);
        producers = ps[h_below(6)];
        per = 1 + h_below(50);
        threads = ts[h_below(9)];
        round_chain(h_below(2));
        round_full(ts[h_below(7)]);
        round_meet(ts[h_below(8)], 8);
        if (i % 16 == 0) {
            int k;
            for (k = 0; k <= 4; k++) {      /* threads that cannot be started */
                fail_after = k;
                pool = threadpool_create(5, qsize, 2097152, 0);
                fail_after = -1;
                if (pool != NULL) h_fail("pool:create", "a pool was created without its threads");
                cases++;
            }
            qsize = 1 + h_below(3);
            round_server(h_below(2) ? 150 : 20, 40);
            round_server(700, 2);
        }
    }
    h_count("refused_full", refused_full);
    h_count("refused_stopping", refused_stop);
    printf("SAMPLE %d threads, queue of %d, %d producers\n", threads, qsize, producers);
    h_cases(cases, seen.n);
    printf("END\n");
    return 0;
}
