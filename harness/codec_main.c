/* Runs the hash and encoding helpers on the inputs it is given.
 * Each line: operation, input in hexadecimal, and where to cut it. */
#include <string.h>
#include <unistd.h>
#include "h.h"
#include "alloc.h"
#include "b64.h"
#include "sha1.h"
#include "ssl.h"
#include "str.h"

static int nib(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }

static unsigned char *unhex(const char *s, size_t *n) {
    size_t l = strlen(s), i;
    unsigned char *p = malloc(l / 2 ? l / 2 : 1);   /* no byte more than the input */
    for (i = 0; i < l / 2; i++) p[i] = nib(s[2*i]) << 4 | nib(s[2*i+1]);
    *n = l / 2;
    return p;
}

static void out(const void *v, size_t n) {
    static const char d[] = "0123456789abcdef";
    const unsigned char *p = v;
    size_t i;
    if (n == 0) putchar('-');
    for (i = 0; i < n; i++) { putchar(d[p[i] >> 4]); putchar(d[p[i] & 15]); }
    putchar('\n');
}

static void digest(SHA1Context *c) {
    unsigned char r[20];
    unsigned i;
    for (i = 0; i < 20; i++) r[i] = c->Message_Digest[i / 4] >> (24 - 8 * (i % 4));
    out(r, 20);
}

int main(void) {
    char *line = NULL;
    size_t cap = 0;
    ssize_t got;
    static char obuf[1 << 16];
    setvbuf(stdout, obuf, _IOFBF, sizeof(obuf));
    while ((got = getline(&line, &cap, stdin)) > 0) {
        char *op = strtok(line, " \n"), *hex = strtok(NULL, " \n"), *cuts = strtok(NULL, " \n");
        size_t n = 0;
        unsigned char *p = NULL;
        if (! op) continue;
        if (*op == 'L') {   /* repeated, for long messages */
            size_t times = strtoul(cuts, NULL, 10);
            SHA1Context c;
            p = unhex(hex, &n);
            SHA1Reset(&c);
            while (times--) SHA1Input(&c, p, n);
            if (! SHA1Result(&c)) puts("corrupted"); else digest(&c);
            free(p);
            continue;
        }
        p = unhex(hex ? hex + 1 : "", &n);   /* one character before it, so that it may be empty */
        if (*op == 's') {
            SHA1Context c;
            size_t at = 0;
            memset(&c, 0x5a, sizeof(c));
            SHA1Reset(&c);
            for (cuts = cuts ? strtok(cuts, ",") : NULL; cuts; cuts = strtok(NULL, ",")) {
                size_t to = strtoul(cuts, NULL, 10), k = to - at;
                unsigned char *piece = malloc(k ? k : 1);
                memcpy(piece, p + at, k);
                SHA1Input(&c, piece, k);
                memset(piece, 0x77, k);
                free(piece);
                at = to;
            }
            SHA1Input(&c, p + at, n - at);
            if (! SHA1Result(&c)) puts("corrupted");
            else {
                if (! SHA1Result(&c)) puts("corrupted the second time");
                digest(&c);
            }
            /* more input after the result is refused, a reset starts anew */
            SHA1Input(&c, (const unsigned char *)"x", 1);
            if (SHA1Result(&c)) puts("accepted input after the result");
            SHA1Reset(&c);
            SHA1Input(&c, p, n);
            if (! SHA1Result(&c)) puts("corrupted after the reset"); else digest(&c);
        } else if (*op == 'h') {
            char r[20 + 8], *h = r;
            memset(r, 0x5a, sizeof(r));
            size_t l = WSS_sha1((char *)p, n, &h);
            for (int i = 20; i < 28; i++) if (r[i] != 0x5a) puts("written behind the digest");
            out(h, l);
        } else if (*op == 'a') {
            char *k = NULL;
            size_t l = WSS_base64_encode_sha1((char *)p, n, &k);
            printf("%.*s\n", (int)l, k ? k : "");
            WSS_free((void **)&k);
        } else if (*op == 'e') {
            char *e = b64_encode(p, n);
            puts(! e ? "NULL" : *e ? e : "-");
            WSS_free((void **)&e);
        } else if (*op == 'd') {
            size_t l = 0;
            unsigned char *e = b64_decode_ex((const char *)p, n, &l), *f;
            if (! e) puts("NULL");
            else {
                if (e[l] != 0) puts("not terminated");
                f = b64_decode_ex((const char *)p, n, NULL);
                if (! f || memcmp(e, f, l + 1)) puts("different without the size");
                WSS_free((void **)&f);
                out(e, l);
            }
            WSS_free((void **)&e);
        } else if (*op == 'x') {
            char *e = bin2hex(p, n);
            puts(! e ? "NULL" : *e ? e : "-");
            WSS_free((void **)&e);
        }
        free(p);
    }
    free(line);
    printf("END\n");
    fflush(stdout);
    return 0;
}
