/* Decoding, encoding and splitting of frames against an encoder written from
 * RFC 6455. args: seed rounds */
#include <sys/mman.h>
#include <unistd.h>
#include "h.h"

static uint64_t cases;
static h_set seen;

typedef struct { int fin, rsv, op, mask; unsigned char key[4]; uint64_t len; unsigned char *data; } spec;

/* As few bytes for the length as possible, or (form) more */
static size_t encode(const spec *f, unsigned char *out, int form) {
    size_t n = 0, i;
    out[n++] = f->fin << 7 | f->rsv << 4 | f->op;
    if (form == 0) form = f->len <= 125 ? 1 : f->len <= 65535 ? 2 : 3;
    if (form == 1) out[n++] = f->mask << 7 | f->len;
    else if (form == 2) { out[n++] = f->mask << 7 | 126; out[n++] = f->len >> 8; out[n++] = f->len; }
    else { out[n++] = f->mask << 7 | 127; for (i = 0; i < 8; i++) out[n++] = f->len >> (56 - 8*i); }
    if (f->mask) { memcpy(out + n, f->key, 4); n += 4; }
    for (i = 0; i < f->len; i++) out[n++] = f->mask ? f->data[i] ^ f->key[i % 4] : f->data[i];
    return n;
}

static uint64_t length(void) {
    static const int edges[] = {0, 0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 49, 63, 64, 65, 79, 80, 95, 96, 97, 124, 125, 126, 127, 128, 129, 191, 192, 193, 255, 256, 257, 65534, 65535, 65536, 65537, 70000};
    switch (h_below(6)) {
        case 0: case 1: return edges[h_below(sizeof(edges)/sizeof(*edges) - (h_below(4) ? 5 : 0))];
        case 2: return h_below(130);
        case 3: return h_below(600);
        case 4: return h_below(h_below(4) ? 3000 : 140000);
        default: return h_below(70);
    }
}

static void draw(spec *f) {
    uint64_t i;
    memset(f, 0, sizeof(*f));
    f->fin = h_below(2);
    f->rsv = h_below(3) ? 0 : h_below(8);
    f->op = h_below(16);
    f->mask = h_below(4) != 0;
    for (i = 0; i < 4; i++) f->key[i] = h_below(5) ? h_rand() : (h_below(2) ? 0 : 0xff);
    f->len = length();
    f->data = malloc(f->len ? f->len : 1);
    for (i = 0; i < f->len; i++) f->data[i] = h_rand();
}

static void same(const wss_frame_t *g, const spec *f, const char *what) {
    if (! g) h_fail("frame:nothing", "%s: no frame", what);
    if (! g->fin != ! f->fin || ! g->rsv1 != ! (f->rsv & 4) || ! g->rsv2 != ! (f->rsv & 2) || ! g->rsv3 != ! (f->rsv & 1) || g->opcode != f->op)
        h_fail("frame:header", "%s: flags %d%d%d%d opcode %d instead of fin %d rsv %d opcode %d", what, g->fin, g->rsv1, g->rsv2, g->rsv3, g->opcode, f->fin, f->rsv, f->op);
    if (g->payloadLength != f->len || g->applicationDataLength + g->extensionDataLength != f->len)
        h_fail("frame:length", "%s: length %llu (%llu) instead of %llu", what, (unsigned long long)g->payloadLength, (unsigned long long)g->applicationDataLength, (unsigned long long)f->len);
    if (f->len && memcmp(g->payload, f->data, f->len)) {
        uint64_t i = 0;
        while ((unsigned char)g->payload[i] == f->data[i]) i++;
        h_fail("frame:payload", "%s: byte %llu of %llu is %02x instead of %02x", what, (unsigned long long)i, (unsigned long long)f->len, (unsigned char)g->payload[i], f->data[i]);
    }
}

/* n bytes that end where nothing can be read any more */
static unsigned char *edge_map;
#define EDGE (1 << 20)
static unsigned char *at_edge(const unsigned char *p, size_t n) {
    if (! edge_map) {
        edge_map = mmap(NULL, EDGE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (edge_map == MAP_FAILED || mprotect(edge_map + EDGE, 4096, PROT_NONE)) exit(3);
    }
    if (n > EDGE) exit(3);
    memcpy(edge_map + EDGE - n, p, n);
    return edge_map + EDGE - n;
}

/* several frames behind one another are decoded one after the other */
static void decode(void) {
    static unsigned char all[EDGE];
    spec f[6];
    size_t ends[6], n = 0, k, count = 1 + h_below(4);
    unsigned char *buf;
    uint64_t off = 0;
    for (k = 0; k < count; k++) {
        int form = 0;
        draw(&f[k]);
        if (f[k].len <= 65535 && h_below(8) == 0) form = f[k].len <= 125 && h_below(2) ? 2 : 3;
        if (n + f[k].len + 14 > EDGE) { free(f[k].data); count = k; break; }
        n += encode(&f[k], all + n, form);
        ends[k] = n;
        h_add(&seen, h_mix(f[k].len * 4096 + f[k].mask * 2048 + f[k].fin * 128 + f[k].rsv * 16 + f[k].op, form));
    }
    buf = at_edge(all, n);
    for (k = 0; k < count; k++) {
        wss_frame_t *g = WSS_parse_frame((char *)buf, n, &off);
        same(g, &f[k], "decoded");
        if (! g->mask != ! f[k].mask) h_fail("frame:header", "mask flag");
        if (off != ends[k]) h_fail("frame:offset", "the frame ends at %zu, decoding stopped at %llu", ends[k], (unsigned long long)off);
        WSS_free_frame(g);
        cases++;
    }
    if (memcmp(buf, all, n)) h_fail("frame:input", "decoding changed its input");
    /* what is cut off is incomplete */
    {
        size_t from = count > 1 ? ends[count-2] : 0, cut, step;
        for (cut = from + 1; cut < n; cut += step) {
            wss_frame_t *g;
            size_t head = cut - from;
            buf = at_edge(all, cut);
            off = from;
            g = WSS_parse_frame((char *)buf, cut, &off);
            if (off <= cut) h_fail("frame:incomplete", "%zu of %zu bytes of a frame (length %llu) are taken for a frame", head, n - from, (unsigned long long)f[count-1].len);
            WSS_free_frame(g);
            cases++;
            step = head < 40 || n - cut < 20 ? 1 : 1 + h_below((n - from) / 8 + 1);
            if (cut + step > n - 1 && cut < n - 1) step = n - 1 - cut;
        }
    }
    for (k = 0; k < count; k++) free(f[k].data);
}

/* lengths that nobody can send */
static void absurd(void) {
    static const uint64_t big[] = {1ULL << 31, 1ULL << 32, (1ULL << 32) + 5, 1ULL << 62, (1ULL << 63) - 1, 1ULL << 63, UINT64_MAX, UINT64_MAX - 1, UINT64_MAX - 9, UINT64_MAX - 13, UINT64_MAX - 14, UINT64_MAX - 100};
    size_t i, extra;
    for (i = 0; i < sizeof(big)/sizeof(*big); i++) for (extra = 0; extra < 40; extra++) {
        int k, m = extra & 1;
        unsigned char b[80], *p;
        uint64_t off = 0;
        size_t n = 0;
        wss_frame_t *g;
        b[n++] = 0x82;
        b[n++] = m << 7 | 127;
        for (k = 0; k < 8; k++) b[n++] = big[i] >> (56 - 8 * k);
        if (m) n += 4;
        memset(b + 10, 0, sizeof(b) - 10);
        n += extra;
        p = at_edge(b, n);
        g = WSS_parse_frame((char *)p, n, &off);
        if (g && off <= n) h_fail("frame:incomplete", "a frame of length %llu with %zu bytes is taken for complete", (unsigned long long)big[i], extra);
        WSS_free_frame(g);
        cases++;
    }
}

static wss_frame_t *build(const spec *f, uint64_t ext) {
    wss_frame_t *g = WSS_malloc(sizeof(*g));
    g->fin = f->fin; g->rsv1 = !! (f->rsv & 4); g->rsv2 = !! (f->rsv & 2); g->rsv3 = !! (f->rsv & 1);
    g->opcode = f->op;
    g->payloadLength = f->len;
    g->extensionDataLength = ext;
    g->applicationDataLength = f->len - ext;
    g->payload = WSS_malloc(f->len ? f->len : 1);
    memcpy(g->payload, f->data, f->len);
    return g;
}

/* frames are encoded as a client expects them: unmasked, shortest length */
static void roundtrip(void) {
    static unsigned char want[EDGE];
    spec f[5];
    wss_frame_t *g[5];
    size_t n = 0, k, count = 1 + h_below(4), got;
    char *out = NULL;
    uint64_t off = 0;
    for (k = 0; k < count; k++) {
        char *one = NULL;
        size_t m;
        draw(&f[k]);
        f[k].mask = 0;
        if (n + f[k].len + 14 > EDGE) { free(f[k].data); count = k; break; }
        g[k] = build(&f[k], h_below(3) ? 0 : h_below(f[k].len + 1));
        m = encode(&f[k], want + n, 0);
        got = WSS_stringify_frame(g[k], &one);
        if (got != m) h_fail("frame:encoded", "%zu bytes instead of %zu for length %llu", got, m, (unsigned long long)f[k].len);
        if (memcmp(one, want + n, m)) h_fail("frame:encoded", "encoding differs for length %llu", (unsigned long long)f[k].len);
        WSS_free((void **)&one);
        n += m;
        cases++;
    }
    got = WSS_stringify_frames(g, count, &out);
    if (got != n || memcmp(out, want, n)) h_fail("frame:encoded", "%zu frames make %zu bytes instead of %zu, or others", count, got, n);
    for (k = 0; k < count; k++) {
        wss_frame_t *b = WSS_parse_frame(out, got, &off);
        same(b, &f[k], "encoded and decoded");
        WSS_free_frame(b);
        WSS_free_frame(g[k]);
        free(f[k].data);
        cases++;
    }
    if (off != n) h_fail("frame:offset", "decoding stopped at %llu of %zu", (unsigned long long)off, n);
    WSS_free((void **)&out);
}

static void split(void) {
    static const int ops[] = {1, 2, 1, 2, 0, 9, 10};
    wss_config_t conf;
    wss_frame_t **fs = NULL;
    uint64_t len = length(), size, count, want, i, off = 0;
    int op = ops[h_below(7)];
    unsigned char *msg;
    if (op > 2 && len > 125) len %= 126;
    switch (h_below(5)) {
        case 0: size = 1 + h_below(len + 3); break;
        case 1: size = len ? len : 1; break;
        case 2: size = 1 + h_below(200); break;
        case 3: size = len / (1 + h_below(20)) + h_below(3); if (! size) size = 1; break;
        default: size = 1 << h_below(22);
    }
    if (len / size > 5000) size = len / 5000 + 1;
    if (op > 2) size = 125 + h_below(1000);
    memset(&conf, 0, sizeof(conf));
    conf.size_frame = size;
    msg = malloc(len ? len : 1);
    for (i = 0; i < len; i++) msg[i] = h_rand();
    count = WSS_create_frames(&conf, op, (char *)msg, len, &fs);
    want = len ? (len + size - 1) / size : 1;
    if (count != want) h_fail("frame:split", "%llu bytes make %llu frames of up to %llu instead of %llu", (unsigned long long)len, (unsigned long long)count, (unsigned long long)size, (unsigned long long)want);
    for (i = 0; i < count; i++) {
        wss_frame_t *f = fs[i];
        if (! f->fin != (i != count - 1)) h_fail("frame:split", "fin of frame %llu of %llu is %d", (unsigned long long)i, (unsigned long long)count, f->fin);
        if (f->opcode != (i ? 0 : op)) h_fail("frame:split", "opcode of frame %llu of %llu is %d", (unsigned long long)i, (unsigned long long)count, f->opcode);
        if (f->rsv1 || f->rsv2 || f->rsv3 || f->mask) h_fail("frame:split", "reserved bits or a mask");
        if (f->payloadLength > size || f->payloadLength != f->applicationDataLength + f->extensionDataLength) h_fail("frame:split", "frame %llu has %llu of at most %llu bytes", (unsigned long long)i, (unsigned long long)f->payloadLength, (unsigned long long)size);
        if (off + f->payloadLength > len || (f->payloadLength && memcmp(f->payload, msg + off, f->payloadLength))) h_fail("frame:split", "frame %llu of %llu has other bytes", (unsigned long long)i, (unsigned long long)count);
        off += f->payloadLength;
    }
    if (off != len) h_fail("frame:split", "%llu of %llu bytes", (unsigned long long)off, (unsigned long long)len);
    {
        /* and through the bytes */
        char *out = NULL;
        size_t n = WSS_stringify_frames(fs, count, &out);
        uint64_t at = 0, done = 0;
        for (i = 0; i < count; i++) {
            wss_frame_t *b = WSS_parse_frame(out, n, &at);
            if (at > n || done + b->payloadLength > len || (b->payloadLength && memcmp(b->payload, msg + done, b->payloadLength))) h_fail("frame:split", "decoded frame %llu of %llu has other bytes", (unsigned long long)i, (unsigned long long)count);
            done += b->payloadLength;
            WSS_free_frame(b);
        }
        if (at != n || done != len) h_fail("frame:split", "decoded %llu of %llu bytes", (unsigned long long)done, (unsigned long long)len);
        WSS_free((void **)&out);
    }
    h_add(&seen, h_mix(len, size * 16 + op));
    for (i = 0; i < count; i++) WSS_free_frame(fs[i]);
    WSS_free((void **)&fs);
    free(msg);
    cases++;
}

static void closing(void) {
    static const uint16_t codes[] = {1000, 1001, 1002, 1003, 1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 3000, 3999, 4000, 4999};
    uint16_t code = codes[h_below(sizeof(codes)/sizeof(*codes))];
    size_t n = h_below(4) ? h_below(124) : 0, i;
    unsigned char *msg = malloc(n + 2), *p;
    char *text = malloc(n + 1);
    wss_frame_t *f, **fs = NULL;
    wss_config_t conf;
    for (i = 0; i < n; i++) text[i] = 1 + h_below(127);
    text[n] = 0;
    f = WSS_closing_frame(code, text);
    if (! f || ! f->fin || f->opcode != 8 || f->mask || f->rsv1 || f->rsv2 || f->rsv3 || f->payloadLength != n + 2 || f->applicationDataLength + f->extensionDataLength != n + 2 ||
        (unsigned char)f->payload[0] != code >> 8 || (unsigned char)f->payload[1] != (code & 255) || memcmp(f->payload + 2, text, n)) h_fail("frame:close", "close frame with code %d and a reason of %zu bytes", code, n);
    WSS_free_frame(f);
    if (code < 3000) {
        f = WSS_closing_frame(code, NULL);
        if (! f || f->opcode != 8 || f->payloadLength < 2 || f->payloadLength > 125 || (unsigned char)f->payload[0] != code >> 8 || (unsigned char)f->payload[1] != (code & 255)) h_fail("frame:close", "close frame with code %d", code);
        WSS_free_frame(f);
    }
    /* from a message that is not terminated */
    msg[0] = code >> 8; msg[1] = code;
    memcpy(msg + 2, text, n);
    p = at_edge(msg, n + 2);
    memset(&conf, 0, sizeof(conf));
    conf.size_frame = 1 + h_below(300);
    if (WSS_create_frames(&conf, 8, (char *)p, n + 2, &fs) != 1) h_fail("frame:close", "a close message makes several frames");
    f = fs[0];
    if (! f || ! f->fin || f->opcode != 8 || f->payloadLength != n + 2 || memcmp(f->payload, msg, n + 2)) h_fail("frame:close", "close message of %zu bytes becomes %llu", n + 2, f ? (unsigned long long)f->payloadLength : 0ULL);
    WSS_free_frame(f);
    WSS_free((void **)&fs);
    h_add(&seen, h_mix(code, n + 77));
    free(msg);
    free(text);
    cases += 3;
}

/* A reason that does not fit is cut, but not inside a character. */
static void reasons(void) {
    static const char *chars[] = {"a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xdf\xbf", "\xef\xbf\xbd", "\xf4\x8f\xbf\xbf"};
    size_t want = h_below(400), n = 0, got, kind = h_below(9);
    unsigned char *msg = malloc(408), *p;
    wss_frame_t *f, **fs = NULL;
    wss_config_t conf;
    msg[0] = 4000 >> 8; msg[1] = 4000 & 255;
    if (h_below(3) == 0) want = 118 + h_below(12);
    while (n < want) {
        const char *c = chars[kind < 7 && h_below(4) ? kind : h_below(7)];
        if (n + strlen(c) > want) c = "b";
        memcpy(msg + 2 + n, c, strlen(c));
        n += strlen(c);
    }
    p = at_edge(msg, n + 2);
    memset(&conf, 0, sizeof(conf));
    conf.size_frame = 1 + h_below(300);
    if (WSS_create_frames(&conf, 8, (char *)p, n + 2, &fs) != 1) h_fail("frame:close", "a close message makes several frames");
    f = fs[0];
    if (! f || ! f->fin || f->opcode != 8 || f->payloadLength < 2 || f->payloadLength > 125 || f->payloadLength > n + 2 || memcmp(f->payload, msg, f->payloadLength))
        h_fail("frame:close", "close message of %zu bytes becomes %llu", n + 2, f ? (unsigned long long)f->payloadLength : 0ULL);
    got = f->payloadLength - 2;
    if (n <= 123 && got != n) h_fail("frame:close", "the reason of %zu bytes was cut to %zu", n, got);
    if (got < n && (msg[2 + got] & 0xc0) == 0x80) h_fail("frame:close", "the reason of %zu bytes was cut to %zu in the middle of a character", n, got);
    if (n > 123 && got < 120) h_fail("frame:close", "the reason of %zu bytes was cut to %zu", n, got);
    WSS_free_frame(f);
    WSS_free((void **)&fs);
    h_add(&seen, h_mix(got, n * 8 + kind));
    free(msg);
    cases++;
}

static void pings(void) {
    spec f;
    wss_frame_t *g = WSS_ping_frame();
    if (! g || ! g->fin || g->opcode != 9 || g->mask || g->rsv1 || g->rsv2 || g->rsv3 || g->payloadLength > 125) h_fail("frame:ping", "ping frame");
    WSS_free_frame(g);
    draw(&f);
    f.len %= 126;
    f.fin = 1; f.rsv = 0; f.op = 9;
    g = build(&f, 0);
    g->mask = 1;
    memcpy(g->maskingKey, f.key, 4);
    g = WSS_pong_frame(g);
    f.op = 10;
    same(g, &f, "pong");
    if (g->mask) h_fail("frame:pong", "the pong is masked");
    WSS_free_frame(g);
    free(f.data);
    cases += 2;
}

int main(int argc, char **argv) {
    int rounds = atoi(argv[2]), i;
    (void)argc;
#ifdef NEED
    if (! __builtin_cpu_supports(NEED)) { printf("COUNT unsupported_cpu 1\nEND\n"); return 0; }
#endif
    h_seed(strtoull(argv[1], NULL, 10));
    log_set_quiet(1);
    absurd();
    for (i = 0; i < rounds; i++) { decode(); roundtrip(); split(); closing(); reasons(); pings(); }
    printf("SAMPLE %d rounds\n", rounds);
    h_cases(cases, seen.n);
    printf("END\n");
    return 0;
}
