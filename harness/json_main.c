/* Parses the documents it is given and prints what they were parsed to.
 * stdin: for each document its settings (one byte), its length (four bytes), and its text */
#include "h.h"
#include "alloc.h"
#include "json.h"

static long live, server_live;
static void *take(size_t n, int zero, void *u) {
    void *p = zero ? calloc(1, n) : malloc(n);
    if (p && ! zero) memset(p, 0xa5, n);
    ++*(long *)u;
    return p;
}
static void give(void *p, void *u) { if (p) --*(long *)u; free(p); }
/* as the server does it */
static void *staken(size_t n, int zero, void *u) { (void)u; void *p = zero ? WSS_calloc(1, n) : WSS_malloc(n); if (p) server_live++; return p; }
static void sgive(void *p, void *u) { (void)u; if (p) server_live--; WSS_free(&p); }

static void hex(const void *v, size_t n) {
    static const char d[] = "0123456789abcdef";
    const unsigned char *p = v;
    size_t i;
    for (i = 0; i < n; i++) { putchar(d[p[i] >> 4]); putchar(d[p[i] & 15]); }
}

static uint64_t docno;

/* without recursion, for deep documents */
static void print(json_value *root) {
    json_value *v = root;
    static unsigned *at;
    static size_t cap;
    size_t depth = 0;
    if (root->parent) h_fail("json:tree", "document %llu: the root has a parent", (unsigned long long)docno);
    if (! at) { cap = 1024; at = malloc(cap * sizeof(*at)); }
    at[0] = 0;
    for (;;) {
        int down = 0;
        switch (v->type) {
            case json_null: putchar('n'); break;
            case json_boolean: putchar(v->u.boolean == 1 ? 't' : v->u.boolean == 0 ? 'f' : '?'); break;
            case json_integer: printf("i%lld", (long long)v->u.integer); break;
            case json_double: putchar('d'); { double d = v->u.dbl; unsigned char b[8]; memcpy(b, &d, 8); hex(b, 8); } break;
            case json_string:
                putchar('s');
                hex(v->u.string.ptr, v->u.string.length);
                if (v->u.string.ptr[v->u.string.length]) h_fail("json:tree", "document %llu: a string is not terminated", (unsigned long long)docno);
                break;
            case json_array:
                if (at[depth] == 0) putchar('[');
                if (at[depth] < v->u.array.length) {
                    json_value *c = v->u.array.values[at[depth]++];
                    if (at[depth] > 1) putchar(',');
                    if (c->parent != v) h_fail("json:tree", "document %llu: an element does not know its array", (unsigned long long)docno);
                    v = c;
                    down = 1;
                } else putchar(']');
                break;
            case json_object:
                if (at[depth] == 0) putchar('{');
                if (at[depth] < v->u.object.length) {
                    json_object_entry *e = &v->u.object.values[at[depth]++];
                    if (at[depth] > 1) putchar(',');
                    hex(e->name, e->name_length);
                    putchar(':');
                    if (e->name[e->name_length]) h_fail("json:tree", "document %llu: a name is not terminated", (unsigned long long)docno);
                    if (e->value->parent != v) h_fail("json:tree", "document %llu: a member does not know its object", (unsigned long long)docno);
                    v = e->value;
                    down = 1;
                } else putchar('}');
                break;
            default: h_fail("json:tree", "document %llu: a value has type %d", (unsigned long long)docno, v->type);
        }
        if (down) {
            if (++depth == cap) at = realloc(at, (cap *= 2) * sizeof(*at));
            at[depth] = 0;
        } else {
            if (depth == 0) break;
            depth--;
            v = v->parent;
        }
    }
}

int main(void) {
    static char obuf[1 << 16];
    unsigned char head[5];
    setvbuf(stdout, obuf, _IOFBF, sizeof(obuf));
    while (fread(head, 1, 5, stdin) == 5) {
        uint32_t n = head[1] | head[2] << 8 | head[3] << 16 | (uint32_t)head[4] << 24;
        char *doc = malloc(n ? n : 1), *error = malloc(json_error_max);
        json_settings s;
        json_value *v;
        long before = server_live;
        if (fread(doc, 1, n, stdin) != n) return 3;
        memset(error, 0x5a, json_error_max);
        memset(&s, 0, sizeof(s));
        live = 0;
        if (head[0] & 1) s.settings = json_enable_comments;
        if (head[0] & 2) { s.mem_alloc = staken; s.mem_free = sgive; }
        else { s.mem_alloc = take; s.mem_free = give; s.user_data = &live; }
        v = json_parse_ex(&s, doc, n, head[0] & 4 ? NULL : error);
        if (v) {
            memset(doc, 0x5a, n);   /* nothing may refer to the text any longer */
            print(v);
            json_value_free_ex(&s, v);
        } else {
            if (! (head[0] & 4) && ! memchr(error, 0, json_error_max)) h_fail("json:error", "document %llu: the error is not terminated", (unsigned long long)docno);
            printf("E%s", head[0] & 4 ? " " : error[0] ? " " : "no text");
        }
        putchar('\n');
        if (live || server_live != before) h_fail("json:leak", "document %llu: %ld blocks are left", (unsigned long long)docno, live + server_live - before);
        free(doc);
        free(error);
        docno++;
    }
    h_count("documents", docno);
    printf("END\n");
    fflush(stdout);
    return 0;
}
