/* Counts the blocks that are in use, in a file that others can look at. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <malloc.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#define CLASSES 2048

struct counters {
    long blocks, bytes, total, freed;
    long by_size[CLASSES];      /* of 16 bytes, the last is for all larger ones */
};

static struct counters early;
static struct counters *c = &early;

extern void *__libc_malloc(size_t);
extern void *__libc_calloc(size_t, size_t);
extern void *__libc_realloc(void *, size_t);
extern void *__libc_memalign(size_t, size_t);
extern void __libc_free(void *);

static void *in(void *p) {
    if (p) {
        size_t n = malloc_usable_size(p);
        size_t k = n / 16 < CLASSES ? n / 16 : CLASSES - 1;
        __atomic_add_fetch(&c->blocks, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&c->total, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&c->bytes, n, __ATOMIC_RELAXED);
        __atomic_add_fetch(&c->by_size[k], 1, __ATOMIC_RELAXED);
    }
    return p;
}

static void out(size_t n) {
    size_t k = n / 16 < CLASSES ? n / 16 : CLASSES - 1;
    __atomic_add_fetch(&c->freed, 1, __ATOMIC_RELAXED);
    __atomic_sub_fetch(&c->blocks, 1, __ATOMIC_RELAXED);
    __atomic_sub_fetch(&c->bytes, n, __ATOMIC_RELAXED);
    __atomic_sub_fetch(&c->by_size[k], 1, __ATOMIC_RELAXED);
}

__attribute__((constructor)) static void start(void) {
    char *f = getenv("COUNT_FILE");
    int fd;
    void *p;
    if (!f || (fd = open(f, O_RDWR | O_CREAT, 0600)) < 0) {
        return;
    }
    if (ftruncate(fd, sizeof(early)) == 0 && (p = mmap(NULL, sizeof(early), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0)) != MAP_FAILED) {
        memcpy(p, &early, sizeof(early));
        c = p;
    }
    close(fd);
    unsetenv("COUNT_FILE");
}

void *malloc(size_t n) { return in(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return in(__libc_calloc(a, b)); }
void *memalign(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return in(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n) {
    void *x = in(__libc_memalign(a, n));
    if (!x) {
        return ENOMEM;
    }
    *p = x;
    return 0;
}
void free(void *p) {
    if (p) {
        out(malloc_usable_size(p));
        __libc_free(p);
    }
}
void *realloc(void *p, size_t n) {
    size_t old;
    void *x;
    if (!p) {
        return in(__libc_malloc(n));
    }
    old = malloc_usable_size(p);
    x = __libc_realloc(p, n);
    if (x) {
        out(old);
        in(x);
    } else if (n == 0) {
        out(old);
    }
    return x;
}
void *reallocarray(void *p, size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) {
        errno = ENOMEM;
        return NULL;
    }
    return realloc(p, n);
}
