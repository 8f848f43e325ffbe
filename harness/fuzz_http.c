/* Parsing of requests, choice of protocol and extensions, and their release */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "alloc.h"
#include "config.h"
#include "extensions.h"
#include "header.h"
#include "http.h"
#include "log.h"
#include "server.h"
#include "ssl.h"
#include "subprotocols.h"

static wss_config_t conf[3];
static wss_server_t server[3];


int LLVMFuzzerInitialize(int *argc, char ***argv) {
    static char *so[3], *exts[1], *none[3] = { NULL, NULL, NULL };
    static char *hosts[] = { "h", "localhost", "h:1" }, *paths[] = { "chat/?", "a.*", "[^b]+" }, *queries[] = { "a=.*", "x" }, *origins[] = { "http://a", "null" };
    const char *dir = getenv("FUZZ_DIR");
    char name[3][4096];
    int i;

    log_set_quiet(1);
    sprintf(name[0], "%s/echo.so", dir); sprintf(name[1], "%s/broadcast.so", dir); sprintf(name[2], "%s/permessage-deflate.so", dir);
    so[0] = strdup(name[0]); so[1] = strdup(name[1]); exts[0] = strdup(name[2]);
    for (i = 0; i < 3; i++) {
        conf[i].size_uri = conf[i].size_header = 8192;
        conf[i].size_payload = 1 << 20;
        conf[i].size_frame = 1 << 20;
        conf[i].port_http = 1; conf[i].port_https = 2;
    }
    conf[0].subprotocols = so; conf[0].subprotocols_config = none; conf[0].subprotocols_length = 2;
    conf[0].extensions = exts; conf[0].extensions_config = none; conf[0].extensions_length = 1;
    conf[1].size_uri = 20; conf[1].size_header = 300; conf[1].size_payload = 20;
    conf[2].hosts = hosts; conf[2].hosts_length = 3; conf[2].paths = paths; conf[2].paths_length = 3;
    conf[2].queries = queries; conf[2].queries_length = 2; conf[2].origins = origins; conf[2].origins_length = 2;
    WSS_load_subprotocols(&conf[0]);
    WSS_load_extensions(&conf[0]);
    for (i = 0; i < 3; i++) {
        server[i].config = &conf[i];
        server[i].port = 1;
        if (WSS_http_regex_init(&server[i]) != WSS_SUCCESS) abort();
    }
    if (NULL == WSS_find_subprotocol("echo") || NULL == WSS_find_extension("permessage-deflate")) abort();
    return 0;
}

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    wss_header_t *h;
    int k;
    unsigned i;
    enum HttpStatus_Code code;

    if (size < 2) return 0;
    k = data[0] % 3;
    data++; size--;
    if (size > conf[k].size_uri + conf[k].size_header + conf[k].size_payload) return 0;
    h = WSS_malloc(sizeof(*h));
    h->content = WSS_malloc(size + 1);
    memcpy(h->content, data, size);
    h->length = size;
    code = WSS_parse_header(7, h, &conf[k]);
    if (code == HttpStatus_OK) {
        if (h->path == NULL || h->method == NULL || h->version == NULL) abort();
        code = WSS_upgrade_header(h, &conf[k], server[k].re);
        if (code == HttpStatus_SwitchingProtocols && h->ws_key != NULL) {
            char *key = NULL;
            WSS_base64_encode_sha1(h->ws_key, strlen(h->ws_key), &key);
            WSS_free((void **)&key);
        }
    }
    for (i = 0; i < h->ws_extensions_count; i++) h->ws_extensions[i]->ext->close(7);
    WSS_free_header(h);
    return 0;
}
