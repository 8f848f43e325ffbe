/* Extension that records the calls it gets, watches that they obey the contract
 * of an extension and transforms messages such that their order shows.
 *
 * config: key=value pairs separated by ';'
 *   log=<path>     where the calls are recorded
 *   rsv=2|3|0      the bit by which messages carry the transformation, 0: all messages do, without a bit
 *   x=<byte>       every byte is XORed in the per frame hooks
 *   r=<n>          n+1 times its offset in the message is added to every byte in
 *                  the per message hooks (r=0: not)
 *   p=<n>          n bytes in front of the message, in the per message hooks
 *   e=1            these are announced as extension data instead of removed
 *   f=<n>          n further bytes at the end of every frame, in the per frame
 *                  hooks (only out, the client is to remove them)
 *   l=<n>          n further bytes at the end of the last frame, in the per
 *                  message hooks (only out, the client is to remove them)
 *   d=<us>         the hooks take that long
 *
 * A parameter of the offer that contains "refuse" is declined, "ignore" also but
 * without touching what is returned, "silent" is
 * accepted without parameters, "plain" makes the out hooks leave messages alone.
 */
#include <pthread.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdbool.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "extension.h"

#define EXPORT __attribute__((visibility("default")))

typedef struct {
    int fd;
    unsigned long id;
    int in, out;                            /* hooks under way */
    bool marked;                            /* message being received is transformed */
    unsigned long frames_since;             /* frames seen since the last message */
    unsigned long inframe, inframes, outframe, outframes, control_in, control_out;
    bool outmarked;
    unsigned long outleft;                  /* frames announced by outFrames and not seen */
    bool plain;
    char canary[16];
} ctx_t;

static WSS_malloc_t emalloc;
static WSS_realloc_t erealloc;
static WSS_free_t efree;
static int logfd = -1;
static int rsv = 2, xor = 0, rot = 0, prefix = 0, extdata = 0, suffix = 0, last = 0, delay = 0;
static unsigned long seq, ids;
static bool inited, destroyed;
static ctx_t *table[65536];
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;

/* with the lock held */
static void record(const char *fmt, ...) {
    char line[2048];
    int n;
    va_list ap;

    n = snprintf(line, sizeof(line), "%lu ", seq++);
    va_start(ap, fmt);
    n += vsnprintf(line+n, sizeof(line)-n-1, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof(line)-2) n = sizeof(line)-2;
    line[n++] = '\n';
    if (logfd >= 0 && write(logfd, line, n) != n) abort();
}

static ctx_t *enter(int fd, bool out, const char *hook) {
    ctx_t *c = NULL;
    pthread_mutex_lock(&lock);
    if (! inited || destroyed) {
        record("BAD %s %d outside of the life of the extension", hook, fd);
    }
    if (fd >= 0 && fd < 65536) c = table[fd];
    if (NULL == c) {
        record("BAD %s %d without an open", hook, fd);
    } else if ((*(out ? &c->out : &c->in))++ != 0) {
        record("BAD %s %d overlaps another call", hook, fd);
    }
    pthread_mutex_unlock(&lock);
    if (delay) usleep(delay);
    return c;
}

static void leave(ctx_t *c, bool out) {
    pthread_mutex_lock(&lock);
    if (out) c->out--; else c->in--;
    pthread_mutex_unlock(&lock);
}

static void bad(ctx_t *c, const char *hook, const char *what, unsigned long n) {
    pthread_mutex_lock(&lock);
    record("BAD %s %d %s %lu", hook, c->fd, what, n);
    pthread_mutex_unlock(&lock);
}

static bool get(wss_frame_t *f) {
    return rsv == 0 ? true : rsv == 2 ? f->rsv2 : f->rsv3;
}

static void set(wss_frame_t *f, bool v) {
    if (rsv == 2) f->rsv2 = v; else if (rsv == 3) f->rsv3 = v;
}

EXPORT void setAllocators(WSS_malloc_t m, WSS_realloc_t r, WSS_free_t f) {
    emalloc = m;
    erealloc = r;
    efree = f;
}

EXPORT void onInit(char *config) {
    char *copy, *p, *save = NULL;
    bool again = inited;

    if (NULL != config && NULL != (copy = strdup(config))) {
        for (p = strtok_r(copy, ";", &save); p; p = strtok_r(NULL, ";", &save)) {
            if (! strncmp(p, "log=", 4) && logfd < 0) logfd = open(p+4, O_WRONLY|O_CREAT|O_APPEND|O_CLOEXEC, 0600);
            else if (! strncmp(p, "rsv=", 4)) rsv = atoi(p+4);
            else if (! strncmp(p, "x=", 2)) xor = atoi(p+2);
            else if (! strncmp(p, "r=", 2)) rot = atoi(p+2);
            else if (! strncmp(p, "p=", 2)) prefix = atoi(p+2);
            else if (! strncmp(p, "e=", 2)) extdata = atoi(p+2);
            else if (! strncmp(p, "f=", 2)) suffix = atoi(p+2);
            else if (! strncmp(p, "l=", 2)) last = atoi(p+2);
            else if (! strncmp(p, "d=", 2)) delay = atoi(p+2);
        }
        free(copy);
    }
    pthread_mutex_lock(&lock);
    if (again) record("BAD onInit called again");
    if (NULL == emalloc || NULL == erealloc || NULL == efree) record("BAD onInit without allocators");
    inited = true;
    record("init %s", config ? config : "(null)");
    pthread_mutex_unlock(&lock);
}

EXPORT void onOpen(int fd, char *param, char **accepted, bool *valid) {
    ctx_t *c;
    char text[64];

    pthread_mutex_lock(&lock);
    if (! inited || destroyed) record("BAD onOpen %d outside of the life of the extension", fd);
    if (NULL != *accepted) record("BAD onOpen %d with an answer already", fd);
    if (fd < 0 || fd >= 65536) {
        record("BAD onOpen %d descriptor", fd);
        pthread_mutex_unlock(&lock);
        *valid = false;
        return;
    }
    if (NULL != param && NULL != strstr(param, "ignore")) {
        record("refuse %d %s", fd, param);
        pthread_mutex_unlock(&lock);
        return;
    }
    if (NULL != param && NULL != strstr(param, "refuse")) {
        record("refuse %d %s", fd, param);
        pthread_mutex_unlock(&lock);
        if (NULL != strstr(param, "refuse-text")) {
            /* to be freed by the server */
            *accepted = emalloc(16);
            memcpy(*accepted, " declined", 10);
        }
        *valid = false;
        return;
    }
    if (NULL != table[fd]) record("BAD onOpen %d is open already", fd);
    c = malloc(sizeof(*c));
    memset(c, 0, sizeof(*c));
    c->fd = fd;
    c->id = ++ids;
    c->plain = NULL != param && NULL != strstr(param, "plain");
    memcpy(c->canary, "canarycanarycan", 16);
    table[fd] = c;
    record("open %d %lu [%s]", fd, c->id, param ? param : "(null)");
    pthread_mutex_unlock(&lock);
    if (NULL == param || NULL == strstr(param, "silent")) {
        int n = snprintf(text, sizeof(text), " id=%lu; ok", c->id);
        *accepted = emalloc(n+1);
        memcpy(*accepted, text, n+1);
    }
    *valid = true;
}

EXPORT void inFrame(int fd, wss_frame_t *frame) {
    uint64_t i;
    ctx_t *c = enter(fd, false, "inFrame");
    if (NULL == c) return;
    if (frame->opcode >= 8) {
        c->control_in++;
        leave(c, false);
        return;
    }
    if (c->frames_since == 0) {
        if (frame->opcode == 0) bad(c, "inFrame", "continuation in front", 0);
        c->marked = get(frame);
    } else if (frame->opcode != 0) {
        bad(c, "inFrame", "first frame after others", c->frames_since);
    }
    c->frames_since++;
    c->inframe++;
    if (frame->payloadLength != frame->extensionDataLength + frame->applicationDataLength) {
        bad(c, "inFrame", "lengths do not add up", frame->payloadLength);
    }
    if (c->marked && xor) {
        for (i = 0; i < frame->payloadLength; i++) frame->payload[i] ^= (char)xor;
    }
    leave(c, false);
}

EXPORT void inFrames(int fd, wss_frame_t **frames, size_t len) {
    size_t j;
    uint64_t i, off = 0;
    ctx_t *c = enter(fd, false, "inFrames");
    if (NULL == c) return;
    if (len == 0) {
        bad(c, "inFrames", "no frames", 0);
        leave(c, false);
        return;
    }
    if (frames[0]->opcode >= 8) {
        leave(c, false);
        return;
    }
    c->inframes++;
    if (c->frames_since != len) bad(c, "inFrames", "number of frames differs from the calls for each", len);
    c->frames_since = 0;
    for (j = 0; j < len; j++) {
        if (frames[j]->fin != (j+1 == len)) bad(c, "inFrames", "fin of frame", j);
        if ((frames[j]->opcode == 0) != (j > 0)) bad(c, "inFrames", "opcode of frame", j);
    }
    if (c->marked) {
        bool ok = true;
        if (rot) {
            for (j = 0; j < len; j++) {
                for (i = 0; i < frames[j]->payloadLength; i++) frames[j]->payload[i] -= (char)(rot*(off++));
            }
        }
        if (prefix) {
            /* it may be spread over several frames */
            for (j = 0, off = 0; j < len; j++) {
                for (i = 0; i < frames[j]->payloadLength && off < (uint64_t)prefix; i++, off++) ok = ok && frames[j]->payload[i] == (char)('P'+off);
            }
            ok = ok && off == (uint64_t)prefix;
            for (j = 0, off = 0; ok && j < len; j++) {
                wss_frame_t *f = frames[j];
                uint64_t n = (uint64_t)prefix-off < f->payloadLength ? (uint64_t)prefix-off : f->payloadLength;
                off += n;
                if (extdata) {
                    f->extensionDataLength = n;
                    f->applicationDataLength = f->payloadLength - n;
                } else {
                    memmove(f->payload, f->payload+n, f->payloadLength-n);
                    f->payloadLength -= n;
                    f->applicationDataLength = f->payloadLength;
                }
            }
        }
        /* what does not have the form is left with its bit set */
        if (ok) set(frames[0], false);
    }
    leave(c, false);
}

EXPORT void outFrames(int fd, wss_frame_t **frames, size_t len) {
    size_t j;
    uint64_t i, off = 0;
    ctx_t *c = enter(fd, true, "outFrames");
    if (NULL == c) return;
    if (c->outleft) bad(c, "outFrames", "frames of the message before were not given to outFrame", c->outleft);
    if (len == 0) bad(c, "outFrames", "no frames", 0);
    c->outleft = len;
    c->outmarked = false;
    if (len > 0 && frames[0]->opcode >= 8) {
        if (len != 1) bad(c, "outFrames", "fragmented control frame", len);
        c->control_out++;
    } else if (len > 0) {
        c->outframes++;
        for (j = 0; j < len; j++) {
            if (frames[j]->fin != (j+1 == len)) bad(c, "outFrames", "fin of frame", j);
            if ((frames[j]->opcode == 0) != (j > 0)) bad(c, "outFrames", "opcode of frame", j);
            if (frames[j]->mask) bad(c, "outFrames", "mask of frame", j);
        }
        if (! c->plain) {
            c->outmarked = true;
            if (rsv && get(frames[0])) bad(c, "outFrames", "bit set already", rsv);
            set(frames[0], true);
            if (prefix) {
                wss_frame_t *f = frames[0];
                char *p = erealloc(f->payload, f->payloadLength+prefix+1);
                f->payload = p;
                memmove(p+prefix, p, f->payloadLength);
                for (i = 0; i < (uint64_t)prefix; i++) p[i] = (char)('P'+i);
                f->payloadLength += prefix;
                if (extdata) f->extensionDataLength += prefix;
                else f->applicationDataLength += prefix;
            }
            if (last) {
                wss_frame_t *f = frames[len-1];
                f->payload = erealloc(f->payload, f->payloadLength+last+1);
                memset(f->payload+f->payloadLength, '+', last);
                f->payloadLength += last;
                f->applicationDataLength += last;
            }
            if (rot) {
                for (j = 0; j < len; j++) {
                    for (i = 0; i < frames[j]->payloadLength; i++) frames[j]->payload[i] += (char)(rot*(off++));
                }
            }
        }
    }
    leave(c, true);
}

EXPORT void outFrame(int fd, wss_frame_t *frame) {
    uint64_t i;
    ctx_t *c = enter(fd, true, "outFrame");
    if (NULL == c) return;
    if (c->outleft == 0) bad(c, "outFrame", "frame not announced, opcode", frame->opcode);
    else c->outleft--;
    if (frame->opcode < 8) {
        c->outframe++;
        if (c->outmarked) {
            if (xor) {
                for (i = 0; i < frame->payloadLength; i++) frame->payload[i] ^= (char)xor;
            }
            if (suffix) {
                frame->payload = erealloc(frame->payload, frame->payloadLength+suffix+1);
                memset(frame->payload+frame->payloadLength, '~', suffix);
                frame->payloadLength += suffix;
                frame->applicationDataLength += suffix;
            }
        }
    }
    leave(c, true);
}

EXPORT void onClose(int fd) {
    ctx_t *c = NULL;
    pthread_mutex_lock(&lock);
    if (! inited || destroyed) record("BAD onClose %d outside of the life of the extension", fd);
    if (fd >= 0 && fd < 65536) c = table[fd];
    if (NULL == c) {
        record("BAD onClose %d without an open", fd);
    } else {
        if (c->in || c->out) record("BAD onClose %d during a call", fd);
        if (memcmp(c->canary, "canarycanarycan", 16)) record("BAD onClose %d damaged", fd);
        record("close %d %lu %lu %lu %lu %lu %lu %lu", fd, c->id, c->inframe, c->inframes, c->outframe, c->outframes, c->control_in, c->control_out);
        table[fd] = NULL;
        free(c);
    }
    pthread_mutex_unlock(&lock);
}

EXPORT void onDestroy() {
    int fd;
    pthread_mutex_lock(&lock);
    if (! inited || destroyed) record("BAD onDestroy outside of the life of the extension");
    for (fd = 0; fd < 65536; fd++) {
        if (NULL != table[fd]) {
            record("BAD onDestroy with %d open", fd);
            free(table[fd]);
            table[fd] = NULL;
        }
    }
    destroyed = true;
    record("destroy");
    pthread_mutex_unlock(&lock);
    if (logfd >= 0) close(logfd);
    logfd = -1;
}
