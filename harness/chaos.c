/* Linked into instrumented servers with --wrap: when the environment asks for
 * it, calls that threads synchronise or communicate with are delayed at random
 * and reads and writes of sockets behave as badly as the kernel may: short,
 * interrupted, or not ready although they were.
 *
 * CHAOS=seed,delays per 1000,longest delay in us,faults per 1000[,sites per 1000]
 *
 * With the last number only calls from so many of the places in the program are
 * delayed, which are selected by the seed: threads that do not get there run on
 * at full speed while the others linger.
 */
#define _GNU_SOURCE
#include <errno.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>

static int on, p_delay, max_us, p_fault, p_site = 1000;
static uint64_t seed;
static atomic_ulong threads, calls, delays, shorts, again, interrupts;
static __thread uint64_t state;

__attribute__((constructor)) static void chaos_init(void) {
    const char *e = getenv("CHAOS");
    unsigned long long s;
    if (e && sscanf(e, "%llu,%d,%d,%d,%d", &s, &p_delay, &max_us, &p_fault, &p_site) >= 4) {
        seed = s;
        on = 1;
    }
}

__attribute__((destructor)) static void chaos_done(void) {
    FILE *f;
    if (on && (f = fopen("chaos.stats", "w"))) {
        fprintf(f, "calls %lu delays %lu short %lu again %lu interrupted %lu threads %lu\n", calls, delays, shorts, again, interrupts, threads);
        fclose(f);
    }
}

static uint32_t rnd(void) {
    if (!state) state = (seed + 1) * 0x9E3779B97F4A7C15ULL + (atomic_fetch_add(&threads, 1) + 1) * 0xD1B54A32D192ED03ULL;
    state ^= state >> 12; state ^= state << 25; state ^= state >> 27;
    return (uint32_t)((state * 2685821657736338717ULL) >> 33);
}

static int selected(void *site) {
    uint64_t h = seed ^ ((uint64_t)(uintptr_t)site - (uint64_t)(uintptr_t)&chaos_init) * 0x9E3779B97F4A7C15ULL;
    if (p_site >= 1000) return 1;
    h ^= h >> 31; h *= 0xBF58476D1CE4E5B9ULL; h ^= h >> 29; h *= 0x94D049BB133111EBULL; h ^= h >> 32;
    return (int)(h % 1000) < p_site;
}

#define pause_some() pause_at(__builtin_return_address(0))
static void pause_at(void *site) {
    int e;
    struct timespec t;
    uint32_t r;
    if (!on || !selected(site)) return;
    e = errno;
    atomic_fetch_add_explicit(&calls, 1, memory_order_relaxed);
    if ((int)(rnd() % 1000) < p_delay) {
        atomic_fetch_add_explicit(&delays, 1, memory_order_relaxed);
        r = rnd();
        if (r % 3 == 0) {
            sched_yield();
        } else {
            t.tv_sec = 0;
            t.tv_nsec = (long)(rnd() % (max_us + 1)) * (r % 3 == 1 ? 1000 : 50);
            nanosleep(&t, NULL);
        }
    }
    errno = e;
}

static int fault(void) { return on && (int)(rnd() % 1000) < p_fault; }

static int is_socket(int fd) {
    int type, e = errno;
    socklen_t n = sizeof(type);
    int r = getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &n) == 0;
    errno = e;
    return r;
}

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define PLAIN 0
#elif defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(memory_sanitizer)
#define PLAIN 0
#endif
#endif
#ifndef PLAIN
#define PLAIN 1
#endif

#if PLAIN
/* The TLS library comes here, too; with a sanitizer these belong to its runtime. */
#include <sys/syscall.h>
static ssize_t bad(int fd, size_t *n) {
    if (*n > 0 && fault() && is_socket(fd)) {
        switch (rnd() % 4) {
            case 0: interrupts++; errno = EINTR; return -1;
            case 1: again++; errno = EAGAIN; return -1;
            default: shorts++; *n = 1 + rnd() % *n; if (rnd() % 2 && *n > 20) *n = 1 + *n % 20;
        }
    }
    return 0;
}
__attribute__((visibility("default")))
ssize_t read(int fd, void *b, size_t n) {
    pause_some();
    if (bad(fd, &n)) return -1;
    return syscall(SYS_read, fd, b, n);
}
__attribute__((visibility("default")))
ssize_t write(int fd, const void *b, size_t n) {
    pause_some();
    if (bad(fd, &n)) return -1;
    return syscall(SYS_write, fd, b, n);
}
ssize_t __wrap_read(int fd, void *b, size_t n) { return read(fd, b, n); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return write(fd, b, n); }
#else
ssize_t __real_read(int fd, void *b, size_t n);
ssize_t __wrap_read(int fd, void *b, size_t n) {
    pause_some();
    if (n > 0 && fault() && is_socket(fd)) {
        switch (rnd() % 4) {
            case 0: interrupts++; errno = EINTR; return -1;
            case 1: again++; errno = EAGAIN; return -1;
            default: shorts++; n = 1 + rnd() % n; if (rnd() % 2 && n > 20) n = 1 + n % 20;
        }
    }
    return __real_read(fd, b, n);
}

ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n) {
    pause_some();
    if (n > 0 && fault() && is_socket(fd)) {
        switch (rnd() % 4) {
            case 0: interrupts++; errno = EINTR; return -1;
            case 1: again++; errno = EAGAIN; return -1;
            default: shorts++; n = 1 + rnd() % n; if (rnd() % 2 && n > 20) n = 1 + n % 20;
        }
    }
    return __real_write(fd, b, n);
}
#endif

int __real_accept(int fd, struct sockaddr *a, socklen_t *l);
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) {
    pause_some();
    if (fault()) {
        interrupts++;
        errno = rnd() % 2 ? EINTR : ECONNABORTED;
        return -1;
    }
    return __real_accept(fd, a, l);
}

int __real_epoll_wait(int fd, struct epoll_event *ev, int n, int t);
int __wrap_epoll_wait(int fd, struct epoll_event *ev, int n, int t) {
    pause_some();
    if (fault()) {
        interrupts++;
        errno = EINTR;
        return -1;
    }
    return __real_epoll_wait(fd, ev, n, t);
}

int __real_poll(struct pollfd *fds, nfds_t n, int t);
int __wrap_poll(struct pollfd *fds, nfds_t n, int t) {
    pause_some();
    if (fault()) {
        interrupts++;
        errno = EINTR;
        return -1;
    }
    return __real_poll(fds, n, t);
}

#define DELAY(ret, name, params, args) ret __real_##name params; ret __wrap_##name params { pause_some(); return __real_##name args; }
#define DELAY2(ret, name, params, args) ret __real_##name params; ret __wrap_##name params { ret r; r = __real_##name args; pause_some(); return r; }
DELAY(int, epoll_ctl, (int a, int b, int c, struct epoll_event *e), (a, b, c, e))
DELAY(int, pthread_mutex_lock, (pthread_mutex_t *m), (m))
DELAY2(int, pthread_mutex_unlock, (pthread_mutex_t *m), (m))
DELAY(int, pthread_rwlock_rdlock, (pthread_rwlock_t *m), (m))
DELAY(int, pthread_rwlock_wrlock, (pthread_rwlock_t *m), (m))
DELAY2(int, pthread_rwlock_unlock, (pthread_rwlock_t *m), (m))
DELAY(int, pthread_cond_signal, (pthread_cond_t *m), (m))
DELAY(int, close, (int fd), (fd))
DELAY(int, shutdown, (int fd, int how), (fd, how))
#ifdef SSL
struct ssl_st;
DELAY(int, SSL_read, (struct ssl_st *s, void *b, int n), (s, b, n))
DELAY(int, SSL_write, (struct ssl_st *s, const void *b, int n), (s, b, n))
DELAY(int, SSL_do_handshake, (struct ssl_st *s), (s))
#endif
