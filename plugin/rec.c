/* Subprotocol that records everything it is told by the server in a log and
 * does what its messages ask for. Used by the checks as an observer.
 *
 * config: the path of the log, optionally followed by ";sink" (do not echo).
 *
 * A text message starting with '!' is a command:
 *   !sleep <ms>               keep the calling thread busy, then answer "slept"
 *   !send <n> <size> <op>     send n generated messages of that size to the sender
 *   !sendto <fd> <n> <size>   send n generated messages to another descriptor
 * everything else is echoed (unless sink).
 */
#include <fcntl.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include "subprotocol.h"

#define EXPORT __attribute__((visibility("default")))

static WSS_send sender = NULL;
static int logfd = -1;
static int sink = 0;
static unsigned long seq = 0;
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static int busy[65536];

static void record(const char *fmt, ...) {
    static char line[40000];
    int n;
    va_list ap;

    pthread_mutex_lock(&lock);
    n = snprintf(line, sizeof(line), "%lu ", seq++);
    va_start(ap, fmt);
    n += vsnprintf(line+n, sizeof(line)-n-1, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof(line)-2) {
        n = sizeof(line)-2;
    }
    line[n++] = '\n';
    if (logfd >= 0 && write(logfd, line, n) != n) {
        abort();
    }
    pthread_mutex_unlock(&lock);
}

static unsigned long long fnv(const char *p, size_t n) {
    unsigned long long h = 1469598103934665603ULL;
    size_t i;
    for (i = 0; i < n; i++) {
        h = (h ^ (unsigned char)p[i]) * 1099511628211ULL;
    }
    return h;
}

/* message number i of a generated series, printable so that it is valid text */
static void generate(char *buf, size_t size, int i) {
    size_t j;
    unsigned int x = (unsigned int)i * 2654435761U + 12345U;
    char head[32];
    size_t h = (size_t)snprintf(head, sizeof(head), "%d:", i);
    for (j = 0; j < size; j++) {
        x = x * 1103515245U + 12345U;
        buf[j] = (char)('a' + ((x >> 16) % 26));
    }
    memcpy(buf, head, h < size ? h : size);
}

static void series(int fd, int n, size_t size, int op, int us) {
    int i;
    char *buf = malloc(size + 1);
    for (i = 0; i < n; i++) {
        generate(buf, size, i);
        sender(fd, op, buf, size);
        if (us) usleep(us);
    }
    free(buf);
}

EXPORT void setAllocators(WSS_malloc_t m, WSS_realloc_t r, WSS_free_t f) { }

EXPORT void onInit(char *config, WSS_send s) {
    char path[2048];
    char *semi;
    sender = s;
    snprintf(path, sizeof(path), "%s", config ? config : "");
    if (NULL != (semi = strchr(path, ';'))) {
        *semi = 0;
        sink = strstr(semi+1, "sink") != NULL;
    }
    if (path[0]) {
        logfd = open(path, O_WRONLY|O_CREAT|O_APPEND, 0644);
    }
    record("INIT");
}

EXPORT void onConnect(int fd, char *ip, int port, char *path, char *cookies) {
    record("CONNECT %d %s %d %s %s", fd, ip ? ip : "(null)", port, path ? path : "(null)", cookies ? cookies : "(null)");
}

EXPORT void onMessage(int fd, wss_opcode_t opcode, char *message, size_t len) {
    char cmd[128];
    int a, b, nested = 0;
    unsigned long size;

    if (fd >= 0 && fd < 65536) {
        nested = __atomic_add_fetch(&busy[fd], 1, __ATOMIC_SEQ_CST);
    }
    record("MESSAGE %d %d %zu %016llx %d %d", fd, (int)opcode, len, fnv(message, len), nested, (int)message[len]);
    cmd[0] = 0;
    if (len && message[0] == '!') {
        snprintf(cmd, sizeof(cmd), "%.*s", (int)(len < 100 ? len : 100), message);
    }
    if (sscanf(cmd, "!sleep %d", &a) == 1) {
        usleep(1000 * a);
        sender(fd, TEXT_FRAME, "slept", 5);
    } else if (sscanf(cmd, "!sendto %d %d %lu", &b, &a, &size) == 3) {
        series(b, a, size, TEXT_FRAME, 0);
    } else if (sscanf(cmd, "!send %d %lu %d", &a, &size, &b) == 3) {
        series(fd, a, size, b, 0);
    } else if (! sink) {
        sender(fd, opcode, message, len);
    }
    if (fd >= 0 && fd < 65536) {
        __atomic_sub_fetch(&busy[fd], 1, __ATOMIC_SEQ_CST);
    }
    record("DONE %d", fd);
}

EXPORT void onWrite(int fd, char *message, size_t len) { }

EXPORT void onClose(int fd) {
    record("CLOSE %d", fd);
}

EXPORT void onDestroy(void) {
    record("DESTROY");
    if (logfd >= 0) {
        close(logfd);
    }
}
