/* Compares utf8_check with a decoder written from the Unicode standard
 * (table 3-7), over exhaustive short sequences at many offsets and random texts.
 * args: seed, rounds, depth (1: all sequences of 3 bytes and classes of 4; 2: all of 4 bytes) */
#include <sys/mman.h>
#include <unistd.h>
#include "h.h"
#include "utf8.c"

static int ref(const unsigned char *s, size_t n) {
    size_t i = 0, k;
    while (i < n) {
        unsigned c = s[i];
        unsigned lo = 0x80, hi = 0xbf;
        if (c < 0x80) { i++; continue; }
        if (c < 0xc2) return 0;
        else if (c < 0xe0) k = 1;
        else if (c < 0xf0) { k = 2; if (c == 0xe0) lo = 0xa0; if (c == 0xed) hi = 0x9f; }
        else if (c < 0xf5) { k = 3; if (c == 0xf0) lo = 0x90; if (c == 0xf4) hi = 0x8f; }
        else return 0;
        if (i + k >= n + 0 && i + k > n - 1) return 0;
        if (s[i+1] < lo || s[i+1] > hi) return 0;
        if (k > 1 && (s[i+2] & 0xc0) != 0x80) return 0;
        if (k > 2 && (s[i+3] & 0xc0) != 0x80) return 0;
        i += k + 1;
    }
    return 1;
}

static unsigned char *area, *edge;     /* an unreadable page follows edge */
static uint64_t cases, valid;
static h_set seen;

static void one(const unsigned char *p, size_t n) {
    unsigned char *s = edge - n;
    int a, b;
    char hex[256];
    memcpy(s, p, n);
    a = utf8_check((const char *)s, n) ? 1 : 0;
    b = ref(s, n);
    cases++;
    valid += b;
    if (a != b) {
        h_hex(hex, p, n);
        h_fail(b ? "utf8:refused" : "utf8:accepted", "%zu bytes %s%s are %s", n, hex, n > 100 ? "..." : "", b ? "valid" : "not valid");
    }
}

static size_t put(unsigned char *p, unsigned c) {
    if (c < 0x80) { p[0] = c; return 1; }
    if (c < 0x800) { p[0] = 0xc0 | c >> 6; p[1] = 0x80 | (c & 63); return 2; }
    if (c < 0x10000) { p[0] = 0xe0 | c >> 12; p[1] = 0x80 | ((c >> 6) & 63); p[2] = 0x80 | (c & 63); return 3; }
    p[0] = 0xf0 | c >> 18; p[1] = 0x80 | ((c >> 12) & 63); p[2] = 0x80 | ((c >> 6) & 63); p[3] = 0x80 | (c & 63);
    return 4;
}

static size_t some(unsigned char *p, size_t room) {
    static const unsigned pick[] = {0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x100000, 0x10ffff, 'a', 0};
    unsigned c;
    unsigned char t[4];
    size_t n;
    switch (h_below(6)) {
        case 0: c = pick[h_below(15)]; break;
        case 1: c = h_below(0x80); break;
        case 2: c = h_below(0x800); break;
        case 3: c = h_below(0x10000); break;
        case 4: c = h_below(0x110000); break;
        default: c = 'x';
    }
    if (c >= 0xd800 && c < 0xe000) c = 0xe000;
    n = put(t, c);
    if (n > room) { p[0] = 'y'; return 1; }
    memcpy(p, t, n);
    return n;
}

int main(int argc, char **argv) {
    uint64_t seed = strtoull(argv[1], 0, 10), rounds = strtoull(argv[2], 0, 10), r;
    int depth = atoi(argv[3]);
    unsigned a, b, c, d;
    unsigned char buf[8192];
    static const unsigned offs[] = {0, 1, 13, 14, 15, 16, 17, 28, 29, 30, 31, 32, 33, 45, 60, 61, 62, 63, 64, 65, 93, 94, 95, 96, 125, 127, 128, 253};
    static const unsigned tails[] = {0, 1, 2, 3, 15, 16, 29, 31, 32, 33, 60, 63, 64, 65};
    long page = sysconf(_SC_PAGESIZE);
#ifdef NEED
    if (!__builtin_cpu_supports(NEED)) { printf("COUNT unsupported_cpu 1\nCASES 1 0\nEND\n"); return 0; }
#endif
    h_seed(seed);
    area = mmap(0, 17*page, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
    mprotect(area + 16*page, page, PROT_NONE);
    edge = area + 16*page;
    one((const unsigned char *)"", 0);
    /* all sequences of one to three bytes, at the start and at every offset of interest */
    for (a = 0; a < 256; a++) for (b = 0; b < 256; b++) {
        unsigned o, t;
        for (o = 0; o < sizeof(offs)/sizeof(*offs); o++) for (t = 0; t < sizeof(tails)/sizeof(*tails); t++) {
            size_t n = offs[o];
            if (depth < 2 && (o + t + a + b + seed) % 7) continue;
            memset(buf, 'a', n + 2 + tails[t]);
            buf[n] = a; buf[n+1] = b;
            one(buf, n + 2 + tails[t]);
            if (b == 0) one(buf, n + 1);
        }
        h_add(&seen, 1 + a*256 + b);
    }
    for (a = 0x80; a < 256; a++) for (b = 0; b < 256; b++) for (c = 0; c < 256; c++) {
        unsigned o = offs[h_below(sizeof(offs)/sizeof(*offs))], t = tails[h_below(sizeof(tails)/sizeof(*tails))];
        if (depth < 2 && (b < 0x7f || b > 0xc1) && h_below(8)) continue;
        memset(buf, 'a', o + 3 + t);
        buf[o] = a; buf[o+1] = b; buf[o+2] = c;
        one(buf, o + 3);
        one(buf, o + 3 + t);
    }
    h_count("exhaustive_upto", 3);
    /* sequences of four bytes */
    for (a = 0xed; a < 256; a++) for (b = 0x78; b < 0xc8; b++) for (c = 0; c < 256; c++) for (d = 0; d < 256; d++) {
        unsigned o, t;
        if (depth < 2 && h_below(24)) continue;
        o = offs[h_below(sizeof(offs)/sizeof(*offs))]; t = tails[h_below(sizeof(tails)/sizeof(*tails))];
        memset(buf, 'a', o + 4 + t);
        buf[o] = a; buf[o+1] = b; buf[o+2] = c; buf[o+3] = d;
        one(buf, o + 4 + t);
    }
    /* every code point, alone and in the middle */
    for (a = 0; a < 0x110000; a++) {
        size_t n, o = h_below(70);
        memset(buf, 'b', 256);
        n = put(buf + o, a);
        one(buf, o + n);
        one(buf, o + n + h_below(70));
    }
    /* random texts with at most one fault */
    for (r = 0; r < rounds; r++) {
        size_t n = 0, len = h_below(h_below(3) ? 130 : 2000), p;
        int kind;
        while (n < len) n += some(buf + n, len - n);
        one(buf, n);
        kind = h_below(6);
        if (n == 0) continue;
        p = h_below(n);
        switch (kind) {
            case 0: buf[p] = h_below(256); break;
            case 1: one(buf, p); break;                                      /* cut off */
            case 2: memmove(buf + p, buf + p + 1, n - p - 1); n--; break;    /* a byte missing */
            case 3: memmove(buf + p + 1, buf + p, n - p); buf[p] = 0x80 | h_below(64); n++; break;
            case 4: buf[p] ^= 1 << h_below(8); break;
            case 5: one(buf + p, n - p); break;
        }
        one(buf, n);
        h_add(&seen, h_mix(h_mix(n, p), kind) | 1 << 30);
    }
    h_count("byte_strings", cases);
    h_count("valid_strings", valid);
    h_cases(cases, seen.n);
    printf("END\n");
    return 0;
}
