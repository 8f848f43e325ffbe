/* Subprotocol that sends on its own account: from within its callbacks and from
 * threads of its own, to the client that asks for it, to others, and to
 * descriptors that are none. Used by the checks as a source.
 *
 * config: threads=<n>
 *
 * A client gets "hello <fd> <number>" from within onConnect. Then a text message
 * starting with '!' is a command:
 *   !here <key> <n> <min> <max> <op>              n messages from within onMessage
 *   !burst <key> <n> <min> <max> <op> <us> <k>    n messages from each of k threads
 *   !to <fd> <number> <key> <n> <min> <max> <op> <us> <k>  the same to another descriptor
 *   !close <us> <code> <reason>                   a close frame from a thread
 *   !closehere <code> <reason>                    a close frame from within onMessage
 *   !pings <n> <size>, !pongs <n> <size>          control frames from a thread
 *   !notices                                      be told who comes and goes
 *   !stray <n> <us>                               n messages to odd descriptors
 *   !forever <key> <max> <us> <k>                 k threads send until the end
 * everything else is echoed.
 *
 * Message i of thread t of a burst is "B<key> <t> <i> <size> " and a part of a
 * fixed pattern, cut to its size.
 */
#define _GNU_SOURCE
#include <limits.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "subprotocol.h"

#define EXPORT __attribute__((visibility("default")))
#define PATTERN 65521
#define MAXFD 65536

static WSS_send sender = NULL;
static WSS_malloc_t alloc = NULL;
static WSS_free_t dealloc = NULL;
static char pattern[PATTERN];

typedef struct job {
    enum { BURST, CLOSING, CONTROL, STRAY, FOREVER } kind;
    int fd, t, n, op, us, code;
    unsigned number;
    size_t min, max;
    unsigned key;
    char reason[200];
    struct job *next;
} job_t;

static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t more = PTHREAD_COND_INITIALIZER;
static job_t *head = NULL, **tail = &head;
static int stop = 0, count = 0;
static pthread_t threads[64];

/* who is here; a descriptor is not used again while its lock is held */
static pthread_mutex_t people = PTHREAD_MUTEX_INITIALIZER;
static pthread_rwlock_t here[MAXFD];
static unsigned number[MAXFD];
static char told[MAXFD];
static int highest = 0;
static unsigned next_number = 1;
static int gone[64];
static unsigned goneat = 0;

static unsigned mix(unsigned key, unsigned t, unsigned i) {
    unsigned long long h = key * 2654435761ULL + t * 40503ULL + i * 69069ULL + 12345;
    h = (h * 6364136223846793005ULL + 1442695040888963407ULL);
    return (unsigned)(h >> 33);
}

/* sends unless the client has gone */
static int sendto_(int fd, unsigned num, int op, char *b, size_t n) {
    int ok;
    if (fd < 0 || fd >= MAXFD) abort();
    pthread_rwlock_rdlock(&here[fd]);
    if ((ok = number[fd] == num)) sender(fd, (wss_opcode_t)op, b, n);
    pthread_rwlock_unlock(&here[fd]);
    return ok;
}

static int one(int fd, unsigned num, unsigned key, int t, int i, size_t min, size_t max, int op) {
    char h[96], *b;
    unsigned x = mix(key, t, i);
    size_t size = min + (max > min ? x % (max - min + 1) : 0), n, at, off = x % PATTERN, k;
    n = (size_t)snprintf(h, sizeof(h), "B%u %d %d %zu ", key, t, i, size);
    if (size < n) size = n;
    /* memory of the server or of our own */
    b = i % 2 && alloc ? alloc(size + 1) : malloc(size + 1);
    if (! b) abort();
    memcpy(b, h, n);
    for (at = n; at < size; at += k) {
        k = PATTERN - off < size - at ? PATTERN - off : size - at;
        memcpy(b + at, pattern + off, k);
        off = 0;
    }
    i = i % 2 && alloc ? 1 : 0;
    k = sendto_(fd, num, op ? op : (x >> 5) % 2 ? TEXT_FRAME : BINARY_FRAME, b, size);
    if (i) dealloc(b); else free(b);
    return (int)k;
}

static int stopped(void) { return __atomic_load_n(&stop, __ATOMIC_SEQ_CST); }

static void *work(void *arg) {
    job_t *j;
    int i, fd;
    unsigned r = (unsigned)(size_t)arg;
    char b[256];

    for (;;) {
        pthread_mutex_lock(&lock);
        while (! stopped() && ! head) pthread_cond_wait(&more, &lock);
        if (stopped()) {
            pthread_mutex_unlock(&lock);
            return NULL;
        }
        j = head;
        if (! (head = j->next)) tail = &head;
        pthread_mutex_unlock(&lock);

        switch (j->kind) {
            case BURST:
            case FOREVER:
                for (i = 0; (j->kind == FOREVER || i < j->n) && ! stopped(); i++) {
                    if (! one(j->fd, j->number, j->key, j->t, i, j->min, j->max, j->op)) break;
                    if (j->us) usleep(j->us);
                }
                break;
            case CLOSING:
                if (j->us) usleep(j->us);
                b[0] = (char)(j->code >> 8);
                b[1] = (char)j->code;
                memcpy(b + 2, j->reason, strlen(j->reason));
                sendto_(j->fd, j->number, CLOSE_FRAME, b, 2 + strlen(j->reason));
                break;
            case CONTROL:
                for (i = 0; i < j->n; i++) {
                    memset(b, 'c', sizeof(b));
                    memcpy(b, &i, j->max < sizeof(i) ? j->max : sizeof(i));
                    sendto_(j->fd, j->number, j->op, b, j->max);
                }
                break;
            case STRAY:
                for (i = 0; i < j->n && ! stopped(); i++) {
                    r = r * 1103515245u + 12345u;
                    switch ((r >> 16) % 8) {
                        case 0: fd = -1; break;
                        case 1: fd = (r >> 20) % 2 ? INT_MAX : INT_MIN; break;
                        case 2: fd = MAXFD + (int)(r >> 20); break;
                        case 3: fd = (int)((r >> 20) % 14); break;
                        default:
                            pthread_mutex_lock(&people);
                            fd = gone[(r >> 20) % 64];
                            pthread_mutex_unlock(&people);
                    }
                    sender(fd, (r >> 12) % 2 ? TEXT_FRAME : BINARY_FRAME, "stray", (r >> 13) % 4 ? 5 : 0);
                    if (j->us) usleep(j->us);
                }
                break;
        }
        free(j);
    }
}

static void later(job_t j) {
    job_t *p = malloc(sizeof(j));
    if (! p) abort();
    *p = j;
    p->next = NULL;
    pthread_mutex_lock(&lock);
    *tail = p;
    tail = &p->next;
    pthread_cond_signal(&more);
    pthread_mutex_unlock(&lock);
}

EXPORT void setAllocators(WSS_malloc_t m, WSS_realloc_t r, WSS_free_t f) {
    alloc = m;
    dealloc = f;
}

EXPORT void onInit(char *config, WSS_send s) {
    size_t i;
    unsigned x = 1;
    sender = s;
    for (i = 0; i < PATTERN; i++) {
        x = x * 1103515245u + 12345u;
        pattern[i] = (char)('a' + (x >> 16) % 26);
    }
    for (i = 0; i < 64; i++) gone[i] = -1;
    pthread_rwlockattr_t at;
    pthread_rwlockattr_init(&at);
    pthread_rwlockattr_setkind_np(&at, PTHREAD_RWLOCK_PREFER_WRITER_NONRECURSIVE_NP);
    for (i = 0; i < MAXFD; i++) pthread_rwlock_init(&here[i], &at);
    if (config && sscanf(config, "threads=%d", &count) == 1) {
        if (count > 64) count = 64;
        for (i = 0; i < (size_t)count; i++) {
            if (pthread_create(&threads[i], NULL, work, (void *)(i + 1))) abort();
        }
    }
}

static void tell(const char *what, unsigned num) {
    int i;
    char b[64];
    int n = snprintf(b, sizeof(b), "%s %u", what, num);
    for (i = 0; i <= highest; i++) {
        if (told[i]) sender(i, TEXT_FRAME, b, n);
    }
}

EXPORT void onConnect(int fd, char *ip, int port, char *path, char *cookies) {
    char b[64];
    unsigned num;
    if (fd < 0 || fd >= MAXFD) abort();
    pthread_mutex_lock(&people);
    pthread_rwlock_wrlock(&here[fd]);
    if (number[fd]) abort();
    num = number[fd] = next_number++;
    pthread_rwlock_unlock(&here[fd]);
    if (fd > highest) highest = fd;
    sender(fd, TEXT_FRAME, b, snprintf(b, sizeof(b), "hello %d %u", fd, num));
    tell("hi", num);
    pthread_mutex_unlock(&people);
}

EXPORT void onMessage(int fd, wss_opcode_t opcode, char *message, size_t len) {
    char cmd[300];
    int i, k, at = 0;
    job_t j;

    memset(&j, 0, sizeof(j));
    cmd[0] = 0;
    if (len && message[0] == '!') snprintf(cmd, sizeof(cmd), "%.*s", (int)(len < 299 ? len : 299), message);
    j.fd = fd;
    pthread_rwlock_rdlock(&here[fd]);
    j.number = number[fd];
    pthread_rwlock_unlock(&here[fd]);
    if (! j.number) abort();
    if (sscanf(cmd, "!here %u %d %zu %zu %d", &j.key, &j.n, &j.min, &j.max, &j.op) == 5) {
        for (i = 0; i < j.n; i++) one(fd, j.number, j.key, 99, i, j.min, j.max, j.op);
    } else if (sscanf(cmd, "!burst %u %d %zu %zu %d %d %d", &j.key, &j.n, &j.min, &j.max, &j.op, &j.us, &k) == 7 ||
               sscanf(cmd, "!to %d %u %u %d %zu %zu %d %d %d", &j.fd, &j.number, &j.key, &j.n, &j.min, &j.max, &j.op, &j.us, &k) == 9) {
        j.kind = BURST;
        for (j.t = 0; j.t < k; j.t++) later(j);
    } else if (sscanf(cmd, "!forever %u %zu %d %d", &j.key, &j.max, &j.us, &k) == 4) {
        j.kind = FOREVER;
        for (j.t = 0; j.t < k; j.t++) later(j);
    } else if (sscanf(cmd, "!close %d %d%n", &j.us, &j.code, &at) == 2 && at) {
        j.kind = CLOSING;
        snprintf(j.reason, sizeof(j.reason), "%s", cmd[at] ? cmd + at + 1 : "");
        later(j);
    } else if (sscanf(cmd, "!closehere %d%n", &j.code, &at) == 1 && at) {
        snprintf(j.reason + 2, sizeof(j.reason) - 2, "%s", cmd[at] ? cmd + at + 1 : "");
        j.reason[0] = (char)(j.code >> 8);
        j.reason[1] = (char)j.code;
        sender(fd, CLOSE_FRAME, j.reason, 2 + strlen(j.reason + 2));
    } else if (sscanf(cmd, "!pings %d %zu", &j.n, &j.max) == 2 || sscanf(cmd, "!pongs %d %zu", &j.n, &j.max) == 2) {
        j.kind = CONTROL;
        j.op = cmd[2] == 'i' ? PING_FRAME : PONG_FRAME;
        if (j.max > 125) j.max = 125;
        later(j);
    } else if (sscanf(cmd, "!stray %d %d", &j.n, &j.us) == 2) {
        j.kind = STRAY;
        later(j);
    } else if (strcmp(cmd, "!notices") == 0) {
        pthread_mutex_lock(&people);
        told[fd] = 1;
        sender(fd, TEXT_FRAME, "noticing", 8);
        pthread_mutex_unlock(&people);
    } else {
        sender(fd, opcode, message, len);
    }
}

EXPORT void onWrite(int fd, char *message, size_t len) { }

EXPORT void onClose(int fd) {
    unsigned num;
    pthread_mutex_lock(&people);
    pthread_rwlock_wrlock(&here[fd]);
    if (! number[fd]) abort();
    num = number[fd];
    number[fd] = 0;
    pthread_rwlock_unlock(&here[fd]);
    told[fd] = 0;
    gone[goneat++ % 64] = fd;
    tell("bye", num);
    pthread_mutex_unlock(&people);
    /* it is too late for this, and harmless */
    sender(fd, TEXT_FRAME, "too late", 8);
}

EXPORT void onDestroy(void) {
    int i;
    job_t *j;
    pthread_mutex_lock(&lock);
    __atomic_store_n(&stop, 1, __ATOMIC_SEQ_CST);
    pthread_cond_broadcast(&more);
    pthread_mutex_unlock(&lock);
    for (i = 0; i < count; i++) pthread_join(threads[i], NULL);
    while ((j = head)) {
        head = j->next;
        free(j);
    }
}
