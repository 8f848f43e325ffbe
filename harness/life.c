/* A plugin that records the calls it gets, and whether they are allowed at that
 * time. Compiled by checks/c34.py:
 *
 *   -DEXT          an extension, otherwise a subprotocol
 *   -DOMIT_<f>     without that function
 *   -DPY=<symbol>  with an initialisation function of that name
 *   -DFOREIGN      refers to a function nobody has, without calling it
 *
 * Records go to the file named by WSS_LIFE: <pid> <path> <what>
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#ifdef EXT
#include "extension.h"
#else
#include "subprotocol.h"
#endif

#define EXPORT __attribute__((visibility("default")))

static WSS_malloc_t amalloc;
static WSS_realloc_t arealloc;
static WSS_free_t afree;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int allocs, inits, destroys, logfd = -1, life;
static char *kept[16], path[512];
static char open_[65536];

static void record(const char *fmt, ...) {
    char line[1024];
    int n;
    va_list ap;

    n = snprintf(line, sizeof(line), "%d %s ", (int)getpid(), path);
    va_start(ap, fmt);
    n += vsnprintf(line+n, sizeof(line)-n-1, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof(line)-2) n = sizeof(line)-2;
    line[n++] = '\n';
    if (logfd >= 0 && write(logfd, line, n) != n) abort();
}

__attribute__((constructor)) static void load(void) {
    Dl_info i;
    char *f = getenv("WSS_LIFE");
    snprintf(path, sizeof(path), "%s", dladdr(&life, &i) && i.dli_fname ? i.dli_fname : "?");
    if (f) logfd = open(f, O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC, 0600);
    record("load");
}

__attribute__((destructor)) static void unload(void) {
    record("unload");
}

static unsigned long long fnv(const char *s) {
    unsigned long long h = 14695981039346656037ULL;
    for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ULL;
    return h;
}

#ifdef PY
EXPORT void *PY(void) {
    record("python %d %d", allocs, inits);
    return NULL;
}
#endif

/* The memory functions work: what they give is writable, keeps its content when
 * it is resized, and several threads may use them */
static char *mem(int n) {
    int i;
    char *p = amalloc(n), *q;
    if (NULL == p) { record("BAD malloc"); return NULL; }
    for (i = 0; i < n; i++) p[i] = (char)(i*7);
    if (NULL == (q = arealloc(p, 3*n))) { record("BAD realloc"); return NULL; }
    for (i = 0; i < n; i++) if (q[i] != (char)(i*7)) { record("BAD realloc content"); break; }
    memset(q, 5, 3*n);
    if (NULL == (p = arealloc(q, n/2+1))) { record("BAD realloc"); return NULL; }
    for (i = 0; i < n/2+1; i++) if (p[i] != 5) { record("BAD realloc content"); break; }
    return p;
}

#ifndef OMIT_setAllocators
EXPORT void setAllocators(WSS_malloc_t m, WSS_realloc_t r, WSS_free_t f) {
    record("alloc");
    if (NULL == m || NULL == r || NULL == f) record("BAD allocators");
    amalloc = m; arealloc = r; afree = f;
    allocs++;
}
#endif

static bool running(const char *f) {
    if (inits <= destroys) { record("BAD %s after %d inits and %d destroys", f, inits, destroys); return false; }
    return true;
}

#ifndef OMIT_onInit
static void init(char *config) {
    char *p;
    pthread_mutex_lock(&lock);
    if (allocs != inits+1) record("BAD onInit after %d allocators", allocs);
    if (config) record("init %zu %016llx", strlen(config), fnv(config)); else record("init null");
    inits++;
    if (amalloc && inits <= 16) {
        kept[inits-1] = mem(100*inits);
        if ((p = arealloc(NULL, 33))) memset(p, 1, 33); else record("BAD realloc of nothing");
        afree(p);
        afree(NULL);
    }
    pthread_mutex_unlock(&lock);
}
#endif

#ifndef OMIT_onDestroy
EXPORT void onDestroy(void) {
    int i;
    pthread_mutex_lock(&lock);
    running("onDestroy");
    record("destroy");
    for (i = 0; i < 65536; i++) if (open_[i]) record("BAD onDestroy while %d is open", i);
    if (destroys < 16 && kept[destroys]) afree(kept[destroys]);
    destroys++;
    pthread_mutex_unlock(&lock);
}
#endif

static void opened(int fd) {
    pthread_mutex_lock(&lock);
    if (running("open")) {
        if (fd < 0 || fd > 65535) record("BAD open of %d", fd);
        else if (open_[fd]++) record("BAD open of %d twice", fd);
    }
    record("open");
    pthread_mutex_unlock(&lock);
}

static void closed(int fd) {
    pthread_mutex_lock(&lock);
    if (running("close")) {
        if (fd < 0 || fd > 65535) record("BAD close of %d", fd);
        else if (open_[fd]-- != 1) record("BAD close of %d which is not open", fd);
    }
    record("close");
    pthread_mutex_unlock(&lock);
}

static void used(const char *f, int fd) {
    char *p;
    pthread_mutex_lock(&lock);
    if (running(f) && open_[fd & 65535] != 1) record("BAD %s of %d which is not open", f, fd);
    pthread_mutex_unlock(&lock);
    if ((p = mem(64))) afree(p);
}

#ifdef FOREIGN
extern void a_function_nobody_has(int);
EXPORT void foreign(int x) { a_function_nobody_has(x); }
#endif

#ifdef EXT
#ifndef OMIT_onInit
EXPORT void onInit(char *config) { init(config); }
#endif
#ifndef OMIT_onOpen
EXPORT void onOpen(int fd, char *param, char **accepted, bool *valid) {
    opened(fd);
    *accepted = amalloc(16);
    memcpy(*accepted, " life", 6);
    *valid = true;
}
#endif
#ifndef OMIT_inFrame
EXPORT void inFrame(int fd, wss_frame_t *f) { used("inFrame", fd); }
#endif
#ifndef OMIT_inFrames
EXPORT void inFrames(int fd, wss_frame_t **f, size_t n) { used("inFrames", fd); }
#endif
#ifndef OMIT_outFrame
EXPORT void outFrame(int fd, wss_frame_t *f) { used("outFrame", fd); }
#endif
#ifndef OMIT_outFrames
EXPORT void outFrames(int fd, wss_frame_t **f, size_t n) { used("outFrames", fd); }
#endif
#else
static WSS_send sender;
#ifndef OMIT_onInit
EXPORT void onInit(char *config, WSS_send s) {
    if (NULL == s) record("BAD onInit without a function to send");
    sender = s;
    init(config);
}
#endif
#ifndef OMIT_onConnect
EXPORT void onConnect(int fd, char *ip, int port, char *p, char *cookies) { opened(fd); }
#endif
#ifndef OMIT_onMessage
EXPORT void onMessage(int fd, wss_opcode_t op, char *m, size_t n) {
    /* who answered shows */
    char *p, *base = strrchr(path, '/');
    size_t l;
    used("onMessage", fd);
    base = base ? base+1 : path;
    l = strlen(base);
    p = amalloc(l+1+n);
    memcpy(p, base, l);
    p[l] = ':';
    memcpy(p+l+1, m, n);
    sender(fd, op, p, l+1+n);
    afree(p);
}
#endif
#ifndef OMIT_onWrite
EXPORT void onWrite(int fd, char *m, size_t n) { }
#endif
#endif
#ifndef OMIT_onClose
EXPORT void onClose(int fd) { closed(fd); }
#endif
