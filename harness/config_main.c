/* link: all main.o flags: -Wl,-z,muldefs */
/* The program itself, in which the start of the server is replaced by writing
 * down the configuration it would have been started with. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "config.h"
#include "server.h"

static FILE *out;

static void str(const char *name, const char *s) {
    fprintf(out, "%s ", name);
    if (s) {
        fputc('s', out);
        for (; *s; s++) fprintf(out, "%02x", (unsigned char)*s);
    } else fputc('-', out);
    fputc('\n', out);
}

static void list(const char *name, char **l, long n) {
    long i;
    fprintf(out, "%s# %ld\n", name, n);
    for (i = 0; i < n; i++) str(name, l[i]);
}

int WSS_server_start(wss_config_t *c) {
    const char *path = getenv("CONFIG_DUMP");
    if (! path || ! (out = fopen(path, "w"))) return 3;
#define N(f) fprintf(out, #f " %lld\n", (long long)c->f)
    N(port_http); N(port_https); N(log); N(size_uri); N(size_payload); N(size_header); N(size_thread); N(size_buffer); N(size_ringbuffer); N(size_frame); N(max_frames);
    N(pool_workers); N(pool_retries); N(timeout_pings); N(timeout_poll); N(timeout_read); N(timeout_write); N(timeout_client); N(ssl_compression); N(ssl_peer_cert);
#define S(f) str(#f, c->f)
    S(ssl_key); S(ssl_cert); S(ssl_ca_file); S(ssl_ca_path); S(ssl_cipher_list); S(ssl_cipher_suites); S(ssl_dhparam); S(favicon);
#define L(f) list(#f, c->f, c->f##_length)
    L(hosts); L(paths); L(queries); L(origins);
    L(subprotocols); list("subprotocols_config", c->subprotocols_config, c->subprotocols_config ? c->subprotocols_length : 0);
    L(extensions); list("extensions_config", c->extensions_config, c->extensions_config ? c->extensions_length : 0);
    fprintf(out, "END\n");
    fclose(out);
    return 0;
}
