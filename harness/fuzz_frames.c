/* Decoding and encoding of frames, and the deflate extension in between */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "alloc.h"
#include "config.h"
#include "extensions.h"
#include "frame.h"
#include "log.h"

static wss_extension_t *ext;

int LLVMFuzzerInitialize(int *argc, char ***argv) {
    static char *exts[1], *none[1];
    static wss_config_t conf;
    char name[4096];

    log_set_quiet(1);
    sprintf(name, "%s/permessage-deflate.so", getenv("FUZZ_DIR"));
    exts[0] = strdup(name);
    conf.extensions = exts; conf.extensions_config = none; conf.extensions_length = 1;
    WSS_load_extensions(&conf);
    if (NULL == (ext = WSS_find_extension("permessage-deflate"))) abort();
    return 0;
}

#define FRAMES 64

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    static const char *offers[] = { NULL, "", "server_no_context_takeover;client_no_context_takeover", "client_max_window_bits=9; server_max_window_bits=9" };
    wss_frame_t *frames[FRAMES], *f;
    size_t n = 0, i, j, k, len;
    uint64_t offset = 0, before, total;
    char *buf, *accepted = NULL, *out;
    bool valid = false;
    int mode;
    char param[200];

    if (size < 2) return 0;
    mode = data[0] % 4;
    data++; size--;
    buf = malloc(size);
    memcpy(buf, data, size);
    if (mode) {
        strcpy(param, offers[mode]);
        ext->open(9, param, &accepted, &valid);
        if (!valid) abort();
    }
    while (offset < size && n < FRAMES) {
        before = offset;
        if (NULL == (f = WSS_parse_frame(buf, size, &offset))) break;
        if (offset > size) {
            WSS_free_frame(f);
            break;
        }
        // A complete frame is at least two bytes and has its whole payload
        if (offset < before + 2 || f->payloadLength > offset - before - 2) abort();
        frames[n++] = f;
    }
    // as the server does it: messages end with a final frame
    for (i = 0; i < n; i = j) {
        for (j = i; j < n && !frames[j]->fin; j++) {}
        if (j < n) j++;
        if (valid) {
            frames[i]->rsv1 = true;
            ext->inframes(9, frames + i, j - i);
            for (total = 0, k = i; k < j; k++) total += frames[k]->payloadLength;
            if (!frames[i]->rsv1) {
                for (k = i; k < j; k++) {
                    // every byte it claims must exist
                    volatile char sum = 0;
                    uint64_t b;
                    for (b = 0; b < frames[k]->payloadLength; b++) sum += frames[k]->payload[b];
                }
                if (total < (1 << 20)) ext->outframes(9, frames + i, j - i);
            }
        }
        len = WSS_stringify_frames(frames + i, j - i, &out);
        if (len == 0) abort();
        WSS_free((void **)&out);
    }
    for (i = 0; i < n; i++) WSS_free_frame(frames[i]);
    if (mode) {
        ext->close(9);
        WSS_free((void **)&accepted);
    }
    free(buf);
    return 0;
}
