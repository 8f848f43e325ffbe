From a7c28f2751af42367324f37374f526e6f62f4859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 01/57] fix: frame parser must not let a 64-bit payload length
 wrap around

---
 src/frame.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index 534dbb1..f5d650b 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -317,15 +317,23 @@ wss_frame_t *WSS_parse_frame(char *payload, size_t length, size_t *offset) {
 
     frame->applicationDataLength = frame->payloadLength-frame->extensionDataLength;
     if ( likely(frame->applicationDataLength > 0) ) {
-        if ( likely(*offset+frame->applicationDataLength <= length) ) {
+        if ( likely(*offset <= length && frame->applicationDataLength <= length-*offset) ) {
             if ( unlikely(NULL == (frame->payload = WSS_malloc(frame->applicationDataLength))) ) {
                 WSS_log_error("Unable to allocate frame application data");
+                WSS_free_frame(frame);
                 return NULL;
             }
 
             memcpy(frame->payload, payload+*offset, frame->applicationDataLength);
         }
-        *offset += frame->applicationDataLength;
+
+        // The announced length is chosen by the client, do not let it wrap
+        // around such that an incomplete frame looks like a complete one
+        if ( unlikely(frame->applicationDataLength > SIZE_MAX-*offset) ) {
+            *offset = SIZE_MAX;
+        } else {
+            *offset += frame->applicationDataLength;
+        }
     }
 
     if ( likely(frame->mask && *offset <= length) ) {
-- 
2.43.0


From c378ba0621cc2535437138edeeed43db1f1667e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 02/57] fix: only the first frame of a fragmented outgoing
 message carries its opcode

---
 src/frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frame.c b/src/frame.c
index f5d650b..bc7984e 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -542,7 +542,8 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         }
 
         frame->fin = 0;
-        frame->opcode = opcode;
+        // Only the first frame of a message carries its opcode
+        frame->opcode = (i == 0) ? opcode : CONTINUATION_FRAME;
         frame->mask = 0;
 
         frame->applicationDataLength = MIN(message_length-(config->size_frame*i), config->size_frame);
-- 
2.43.0


From 98ef669c0d90f35649674d3b498c43e78ec98fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:13 +0000
Subject: [PATCH 03/57] fix: reject an oversized frame from its header instead
 of buffering it

---
 src/worker.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/worker.c b/src/worker.c
index e98b6ac..2a0ec86 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -977,7 +977,8 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         }
 
         // Check if we were forced to read beyond the payload to create a full frame
-        if ( unlikely(offset > payload_length) ) {
+        // A frame which is announced to be too large is not worth waiting for
+        if ( unlikely(offset > payload_length && frame->payloadLength <= MAX(server->config->size_frame, 127)) ) {
             WSS_log_trace("Detected that data was missing in order to complete frame, will wait for more");
 
             WSS_free_frame(frame);
-- 
2.43.0


From bc43580e2d10e6433f4c542bacd404d302a33f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 04/57] fix: header values may be empty or come without a
 leading space

---
 src/header.c | 86 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/src/header.c b/src/header.c
index b739fd3..06e72ef 100644
--- a/src/header.c
+++ b/src/header.c
@@ -69,8 +69,38 @@ static inline char *trim(char* str)
     return str;
 }
 
+/**
+ * Extracts the value of a header line, i.e. what is left of the line after the
+ * name of the header.
+ *
+ * @param   lineptr [char **]   "The state of the tokenization of the line"
+ * @return          [char *]    "The value without surrounding whitespace or NULL if there is no value"
+ */
+static inline char *header_value(char **lineptr)
+{
+    return trim(strtok_r(NULL, "", lineptr));
+}
+
+/**
+ * Extracts the first element of the comma separated value of a header line.
+ *
+ * @param   lineptr [char **]   "The state of the tokenization of the line"
+ * @param   sepptr  [char **]   "The state of the tokenization of the value"
+ * @return          [char *]    "The first element or NULL if there is none"
+ */
+static inline char *header_list(char **lineptr, char **sepptr)
+{
+    char *value = strtok_r(NULL, "", lineptr);
+
+    if ( unlikely(NULL == value) ) {
+        return NULL;
+    }
+
+    return trim(strtok_r(value, ",", sepptr));
+}
+
 static inline void header_set_version(wss_header_t *header, char *v) {
-    int version = strtol(strtok_r(NULL, "", &v), (char **) NULL, 10);
+    int version = strtol(v, (char **) NULL, 10);
 
     if ( likely(header->ws_version < version) ) {
         if ( unlikely(version == 4) ) {
@@ -229,7 +259,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                     return HttpStatus_BadRequest;
                 }
 
-                sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
+                sep = header_list(&lineptr, &sepptr);
                 while (NULL != sep) {
                     header_set_version(header, sep);
 
@@ -237,34 +267,31 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 }
             } else if ( line_length == strlen(UPGRADE_STRING) &&
                         strncasecmp(UPGRADE_STRING, line, line_length) == 0 ) {
-                header->ws_upgrade = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_upgrade = header_value(&lineptr);
             } else if ( line_length == strlen(ORIGIN_STRING) &&
                         strncasecmp(ORIGIN_STRING, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = header_value(&lineptr);
             } else if ( line_length == strlen(CONNECTION_STRING) &&
                         strncasecmp(CONNECTION_STRING, line, line_length) == 0 ) {
-                header->ws_connection = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_connection = header_value(&lineptr);
             } else if ( line_length == strlen(COOKIE_STRING) &&
                         strncasecmp(COOKIE_STRING, line, line_length) == 0 ) {
-                header->cookies = (strtok_r(NULL, "", &lineptr)+1);
+                header->cookies = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_PROTOCOL) &&
                         strncasecmp(SEC_WEBSOCKET_PROTOCOL, line, line_length) == 0 ) {
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
-                    if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
-                        header->ws_protocol = proto;
-                    } else {
-                        while (NULL != (sep = trim(strtok_r(NULL, ",", &sepptr)))) {
-                            if (NULL != (proto = WSS_find_subprotocol(sep))) {
-                                header->ws_protocol = proto;
-                                break;
-                            }
+                    sep = header_list(&lineptr, &sepptr);
+                    while (NULL != sep) {
+                        if (NULL != (proto = WSS_find_subprotocol(sep))) {
+                            header->ws_protocol = proto;
+                            break;
                         }
+                        sep = trim(strtok_r(NULL, ",", &sepptr));
                     }
                 }
             } else if ( line_length == strlen(SEC_WEBSOCKET_ORIGIN) &&
                         strncasecmp(SEC_WEBSOCKET_ORIGIN, line, line_length) == 0 ) {
-                header->ws_origin = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_origin = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY) &&
                         strncasecmp(SEC_WEBSOCKET_KEY, line, line_length) == 0 ) {
                 //The |Sec-WebSocket-Key| header field MUST NOT appear more than once in an HTTP request.
@@ -272,10 +299,12 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                     WSS_log_trace("Sec-WebSocket-Key must only appear once in header");
                     return HttpStatus_BadRequest;
                 }
-                header->ws_key = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_EXTENSIONS) &&
                         strncasecmp(SEC_WEBSOCKET_EXTENSIONS, line, line_length) == 0 ) {
-                line = trim(strtok_r(NULL, "", &lineptr));
+                if ( NULL == (line = header_value(&lineptr)) ) {
+                    line = "";
+                }
                 line_length = strlen(line);
                 if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+1)*sizeof(char))) ) {
                     WSS_log_error("Unable to allocate space for extensions string");
@@ -286,31 +315,28 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                 extensions_length += line_length;
             } else if ( line_length == strlen(HOST_STRING) &&
                         strncasecmp(HOST_STRING, line, line_length) == 0 ) {
-                header->host = (strtok_r(NULL, "", &lineptr)+1);
+                header->host = header_value(&lineptr);
             } else if ( line_length == strlen(WEBSOCKET_PROTOCOL_STRING) &&
                         strncasecmp(WEBSOCKET_PROTOCOL_STRING, line, line_length) == 0 ) {
                 header->ws_type = HIXIE75;
                 if (NULL == header->ws_protocol) {
-                    sep = trim(strtok_r(strtok_r(NULL, "", &lineptr), ",", &sepptr));
-                    if (NULL != sep && NULL != (proto = WSS_find_subprotocol(sep))) {
-                        header->ws_protocol = proto;
-                    } else {
-                        while (NULL != (sep = trim(strtok_r(NULL, ",", &sepptr)))) {
-                            if (NULL != (proto = WSS_find_subprotocol(sep))) {
-                                header->ws_protocol = proto;
-                                break;
-                            }
+                    sep = header_list(&lineptr, &sepptr);
+                    while (NULL != sep) {
+                        if (NULL != (proto = WSS_find_subprotocol(sep))) {
+                            header->ws_protocol = proto;
+                            break;
                         }
+                        sep = trim(strtok_r(NULL, ",", &sepptr));
                     }
                 }
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY1) &&
                         strncasecmp(SEC_WEBSOCKET_KEY1, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key1 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key1 = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY2) &&
                         strncasecmp(SEC_WEBSOCKET_KEY2, line, line_length) == 0 ) {
                 header->ws_type = HIXIE76;
-                header->ws_key2 = (strtok_r(NULL, "", &lineptr)+1);
+                header->ws_key2 = header_value(&lineptr);
             }
         }
 
-- 
2.43.0


From 7a6de0ffcaeba4c1953720754209f258e96b4e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 05/57] fix: extension offers in several headers, empty offers
 and leaks of refused offers

---
 src/header.c | 58 +++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/src/header.c b/src/header.c
index 06e72ef..0e781df 100644
--- a/src/header.c
+++ b/src/header.c
@@ -130,12 +130,13 @@ static inline void header_set_version(wss_header_t *header, char *v) {
  * Parses a HTTP header into a header structure and returns the status code
  * appropriate.
  *
- * @param   fd        [int]                    "The filedescriptor"
- * @param   header    [wss_header_t *]         "The header structure to fill"
- * @param   config    [wss_config_t *]         "The configuration of the server"
- * @return            [enum HttpStatus_Code]   "The status code to return to the client"
+ * @param   fd         [int]                    "The filedescriptor"
+ * @param   header     [wss_header_t *]         "The header structure to fill"
+ * @param   config     [wss_config_t *]         "The configuration of the server"
+ * @param   extensions [char **]                "Buffer for the extensions offered, to be freed by the caller"
+ * @return             [enum HttpStatus_Code]   "The status code to return to the client"
  */
-enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t *config) {
+static enum HttpStatus_Code parse_header(int fd, wss_header_t *header, wss_config_t *config, char **extensions) {
     bool valid, in_use, double_clrf = false;
     size_t i, line_length;
     char *lineptr, *temp, *line, *sep, *accepted;
@@ -143,7 +144,7 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
     char *token, *name; 
     wss_subprotocol_t *proto;
     wss_extension_t *ext;
-    char *exts = NULL;
+    char *exts;
     unsigned int header_size = 0;
     size_t extensions_length = 0;
 
@@ -306,13 +307,20 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                     line = "";
                 }
                 line_length = strlen(line);
-                if ( NULL == (exts = WSS_realloc((void **)&exts, extensions_length, (extensions_length+line_length+1)*sizeof(char))) ) {
+                if ( NULL == (*extensions = WSS_realloc((void **)extensions, extensions_length, (extensions_length+line_length+2)*sizeof(char))) ) {
                     WSS_log_error("Unable to allocate space for extensions string");
                     return HttpStatus_InternalServerError;
                 }
 
-                memcpy(exts+extensions_length, line, line_length);
+                // Several headers are equal to one holding a list of all values
+                if ( unlikely(extensions_length > 0) ) {
+                    (*extensions)[extensions_length] = ',';
+                    extensions_length += 1;
+                }
+
+                memcpy(*extensions+extensions_length, line, line_length);
                 extensions_length += line_length;
+                (*extensions)[extensions_length] = '\0';
             } else if ( line_length == strlen(HOST_STRING) &&
                         strncasecmp(HOST_STRING, line, line_length) == 0 ) {
                 header->host = header_value(&lineptr);
@@ -376,12 +384,19 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
         return HttpStatus_BadRequest;
     }
 
-    if ( NULL != exts ) {
+    if ( NULL != (exts = *extensions) ) {
         sep = trim(strtok_r(exts, ",", &sepptr));
         while(NULL != sep) {
             in_use = false;
+            valid = false;
+            accepted = NULL;
             sep = trim(strtok_r(sep, ";", &paramptr));
 
+            if ( unlikely(NULL == sep) ) {
+                sep = trim(strtok_r(NULL, ",", &sepptr));
+                continue;
+            }
+
             if ( NULL == (name = WSS_copy(sep, strlen(sep)+1)) ) {
                 WSS_log_error("Unable to allocate space for extension structure");
                 return HttpStatus_InternalServerError;
@@ -411,13 +426,18 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
                         header->ws_extensions[header->ws_extensions_count]->name = name;
                         header->ws_extensions[header->ws_extensions_count]->accepted = accepted;
                         header->ws_extensions_count += 1;
+                        name = NULL;
+                    } else {
+                        WSS_free((void **)&accepted);
                     }
                 }
             }
 
+            // The name was not handed over to the header
+            WSS_free((void **)&name);
+
             sep = trim(strtok_r(NULL, ",", &sepptr));
         }
-        WSS_free((void **)&exts);
     }
 
     if ( unlikely(header->ws_type == UNKNOWN
@@ -440,6 +460,24 @@ enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t
     return HttpStatus_OK;
 }
 
+/**
+ * Parses a HTTP header into a header structure and returns the status code
+ * appropriate.
+ *
+ * @param   fd        [int]                    "The filedescriptor"
+ * @param   header    [wss_header_t *]         "The header structure to fill"
+ * @param   config    [wss_config_t *]         "The configuration of the server"
+ * @return            [enum HttpStatus_Code]   "The status code to return to the client"
+ */
+enum HttpStatus_Code WSS_parse_header(int fd, wss_header_t *header, wss_config_t *config) {
+    char *extensions = NULL;
+    enum HttpStatus_Code code = parse_header(fd, header, config, &extensions);
+
+    WSS_free((void **)&extensions);
+
+    return code;
+}
+
 /**
  * Upgrades a HTTP header, that is returns switching protocols response if
  * the header contains the required options.
-- 
2.43.0


From 4ad7fed1186650fd4501f9b0917fad6e69c3adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:14 +0000
Subject: [PATCH 06/57] fix: permessage-deflate must survive corrupt, huge and
 fragmented messages

The payload was inflated into stack arrays sized by the peer, the end of a
stream was not recognised, errors of zlib were taken for success and
control frames were compressed.  A message that does not inflate keeps its
RSV1 bit so that the connection can be failed.
---
 .../permessage-deflate/permessage-deflate.c   | 186 +++++++++---------
 1 file changed, 95 insertions(+), 91 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index dc4d66e..1ab2f60 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -539,6 +539,43 @@ void onOpen(int fd, char *param, char **accepted, bool *valid) {
 void inFrame(int fd, wss_frame_t *frame) {
 }
 
+/**
+ * Distributes the data of a message onto a set of frames.
+ *
+ * @param 	frames	        [wss_frame_t **]  "The frames of the message"
+ * @param 	len	            [size_t]          "The amount of frames"
+ * @param 	message	        [char *]          "The data of the message"
+ * @param 	message_length	[size_t]          "The length of the data"
+ * @return 	                [void]
+ */
+static void distribute(wss_frame_t **frames, size_t len, char *message, size_t message_length) {
+    size_t j, size;
+    char *payload;
+    size_t offset = 0;
+
+    for (j = 0; likely(j < len); j++) {
+        if ( likely(j+1 != len) ) {
+            size = message_length/len;
+        } else {
+            size = message_length-offset;
+        }
+
+        // Always allocate something such that the frame has a payload
+        payload = allocs.realloc(frames[j]->payload, size+1);
+        frames[j]->payload = payload;
+        if ( unlikely(NULL == payload) ) {
+            size = 0;
+        } else {
+            memcpy(payload, message+offset, size);
+        }
+
+        offset += size;
+        frames[j]->extensionDataLength = 0;
+        frames[j]->applicationDataLength = size;
+        frames[j]->payloadLength = size;
+    }
+}
+
 /**
  * Event called when a full set of frames are received.
  *
@@ -548,15 +585,18 @@ void inFrame(int fd, wss_frame_t *frame) {
  * @return 	          [void]
  */
 void inFrames(int fd, wss_frame_t **frames, size_t len) {
-    size_t j, size;
+    char *tmp;
+    char *payload;
+    bool complete = false;
+    size_t j;
     char *message = NULL;
     size_t payload_length = 0;
     wss_comp_t *comp = NULL;
     size_t current_length = 0;
     size_t message_length = 0;
-    int flush_mask = Z_SYNC_FLUSH;
 
-    if (! frames[0]->rsv1) {
+    // Control frames are never compressed
+    if (! frames[0]->rsv1 || frames[0]->opcode >= 0x8) {
         return;
     }
 
@@ -577,11 +617,16 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
     }
     payload_length += 4;
 
-    char payload[payload_length+1];
+    // The size is chosen by the client and must hence not be taken from the stack
+    if ( unlikely(NULL == (payload = allocs.malloc(payload_length+1))) ) {
+        return;
+    }
     payload[payload_length] = '\0';
 
     for (j = 0; likely(j < len); j++) {
-        memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
+        if ( likely(frames[j]->payloadLength > 0) ) {
+            memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
+        }
         current_length += frames[j]->payloadLength;
     }
 
@@ -590,55 +635,49 @@ void inFrames(int fd, wss_frame_t **frames, size_t len) {
     comp->decompressor.avail_in = payload_length;
     comp->decompressor.next_in = (unsigned char *)payload;
 
-    if (comp->params.client_no_context_takeover) {
-        flush_mask = Z_FULL_FLUSH;
-    }
-
     // Decompress data
     do {
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+1)*sizeof(char)))) ) {
-            allocs.free(message);
+        if ( unlikely(NULL == (tmp = allocs.realloc(message, (message_length+default_chunk_size+1)*sizeof(char)))) ) {
+            allocs.free(payload);
             return; 
         }
-        memset(message+message_length, '\0', default_chunk_size+1); 
+        message = tmp;
 
         comp->decompressor.avail_out = default_chunk_size;
         comp->decompressor.next_out = (unsigned char *)message+message_length;
-        switch (inflate(&comp->decompressor, flush_mask)) {
+        switch (inflate(&comp->decompressor, Z_BLOCK)) {
             case Z_OK:
-            case Z_STREAM_END:
             case Z_BUF_ERROR:
+                complete = comp->decompressor.data_type & 128;
+                break;
+            // The client may end a message by a final block, the next block
+            // starts a new stream which may refer to the same window
+            case Z_STREAM_END:
+                complete = true;
+                inflateResetKeep(&comp->decompressor);
                 break;
             default:
+                allocs.free(payload);
                 allocs.free(message);
                 return;
         }
         message_length += default_chunk_size - comp->decompressor.avail_out;
-    } while ( comp->decompressor.avail_out == 0 );
+    } while ( comp->decompressor.avail_in > 0 || (comp->decompressor.avail_out == 0 && ! complete) );
+
+    allocs.free(payload);
+
+    // A message must end with a complete block, else leave the rsv1 bit as a
+    // sign that it could not be decompressed
+    if ( unlikely(! complete) ) {
+        allocs.free(message);
+        return;
+    }
 
     // unset rsv1 bit
     frames[0]->rsv1 = false;
-    current_length = 0;
-
-    // Reallocate application data to contain the decompressed data in the same
-    // amount of frames
-    for (j = 0; likely(j < len); j++) {
-        if ( likely(j+1 != len) ) {
-            size = message_length/len;
-        } else {
-            size = message_length-current_length;
-        }
 
-        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size))) ) {
-            allocs.free(message);
-            return;
-        }
-        memcpy(frames[j]->payload, message+current_length, size);
-        current_length += size;
-        frames[j]->extensionDataLength = 0;
-        frames[j]->applicationDataLength = size;
-        frames[j]->payloadLength = size;
-    }
+    // Let the same amount of frames contain the decompressed data
+    distribute(frames, len, message, message_length);
 
     allocs.free(message);
 }
@@ -662,12 +701,13 @@ void outFrame(int fd, wss_frame_t *frame) {
  * @return 	          [void]
  */
 void outFrames(int fd, wss_frame_t **frames, size_t len) {
-    size_t j, size;
+    char *tmp;
+    char *payload;
+    size_t j;
     char *message = NULL;
     size_t payload_length = 0;
     size_t current_length = 0;
     size_t message_length = 0;
-    int flush_mask = Z_SYNC_FLUSH;
     wss_comp_t *comp;
 
     if ( unlikely(frames[0]->opcode >= 0x8 && frames[0]->opcode <= 0xA) ) {
@@ -690,66 +730,50 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
         payload_length += frames[j]->payloadLength; 
     }
 
-    char payload[payload_length+1];
+    // The size is chosen by the client and must hence not be taken from the stack
+    if ( unlikely(NULL == (payload = allocs.malloc(payload_length+1))) ) {
+        return;
+    }
     payload[payload_length] = '\0';
 
     for (j = 0; likely(j < len); j++) {
-        memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
+        if ( likely(frames[j]->payloadLength > 0) ) {
+            memcpy(payload+current_length, frames[j]->payload, frames[j]->payloadLength);
+        }
         current_length += frames[j]->payloadLength;
     }
 
-    // https://github.com/madler/zlib/issues/149
-    if (comp->params.server_no_context_takeover) {
-        flush_mask = Z_BLOCK;
-    }
-
     // Compress whole message
     comp->compressor.avail_in = payload_length;
     comp->compressor.next_in = (unsigned char *)payload;
 
     do {
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+2)*sizeof(char)))) ) {
-            allocs.free(message);
+        if ( unlikely(NULL == (tmp = allocs.realloc(message, (message_length+default_chunk_size+2)*sizeof(char)))) ) {
+            allocs.free(payload);
             return; 
         }
-        memset(message+message_length, '\0', default_chunk_size+2); 
+        message = tmp;
 
         comp->compressor.avail_out = default_chunk_size;
         comp->compressor.next_out = (unsigned char *)message+message_length;
-        switch (deflate(&comp->compressor, flush_mask)) {
+        switch (deflate(&comp->compressor, Z_SYNC_FLUSH)) {
             case Z_OK:
             case Z_STREAM_END:
             case Z_BUF_ERROR:
                 break;
             default:
+                allocs.free(payload);
                 allocs.free(message);
                 return;
         }
         message_length += default_chunk_size - comp->compressor.avail_out;
     } while ( comp->compressor.avail_out == 0 );
 
-    // https://github.com/madler/zlib/issues/149
-    if (comp->params.server_no_context_takeover) {
-        flush_mask = Z_FULL_FLUSH;
+    allocs.free(payload);
 
-        if ( unlikely(NULL == (message = allocs.realloc(message, (message_length+default_chunk_size+2)*sizeof(char)))) ) {
-            allocs.free(message);
-            return; 
-        }
-        memset(message+message_length, '\0', default_chunk_size+2); 
-
-        comp->compressor.avail_out = default_chunk_size;
-        comp->compressor.next_out = (unsigned char *)message+message_length;
-        switch (deflate(&comp->compressor, flush_mask)) {
-            case Z_OK:
-            case Z_STREAM_END:
-            case Z_BUF_ERROR:
-                break;
-            default:
-                allocs.free(message);
-                return;
-        }
-        message_length += default_chunk_size - comp->compressor.avail_out;
+    // Without context takeover the next message must not refer to this one
+    if (comp->params.server_no_context_takeover) {
+        deflateReset(&comp->compressor);
     }
 
     if ( unlikely(message_length < 5 || memcmp(message+message_length-4, "\x00\x00\xff\xff", 4) != 0) ) {
@@ -763,32 +787,12 @@ void outFrames(int fd, wss_frame_t **frames, size_t len) {
     // set rsv1 bit
     frames[0]->rsv1 = true;
 
-    current_length = 0;
-
-    // Reallocate application data to contain the compressed data in the same
-    // amount of frames
-    for (j = 0; likely(j < len); j++) {
-        if ( likely(j+1 != len) ) {
-            size = message_length/len;
-        } else {
-            size = message_length-current_length;
-        }
-
-        if ( unlikely(NULL == (frames[j]->payload = allocs.realloc(frames[j]->payload, size))) ) {
-            allocs.free(message);
-            return;
-        }
-        memcpy(frames[j]->payload, message+current_length, size);
-        current_length += size;
-        frames[j]->extensionDataLength = 0;
-        frames[j]->applicationDataLength = size;
-        frames[j]->payloadLength = size;
-    }
+    // Let the same amount of frames contain the compressed data
+    distribute(frames, len, message, message_length);
 
     allocs.free(message);
 }
 
-
 /**
  * Event called when the session is closed.
  *
-- 
2.43.0


From d1e75e54c0f6bf9a8d5934e98427303edfaa43f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 07/57] fix: no pointer arithmetic on null when counting the
 names of a JSON object

---
 src/json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/json.c b/src/json.c
index 94dfd07..b3e04c7 100644
--- a/src/json.c
+++ b/src/json.c
@@ -405,7 +405,8 @@ if ((uchar & 0xF800) == 0xD800) {
                   case json_object:
 
                      if (state.first_pass)
-                        (*(json_char **) &top->u.object.values) += string_length + 1;
+                        top->u.object.values = (json_object_entry *)
+                           ((uintptr_t) top->u.object.values + string_length + 1);
                      else
                      {
                         top->u.object.values [top->u.object.length].name
-- 
2.43.0


From 985d25cd5e3b0ecac5efe99555246bc69e46f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 08/57] fix: name of the Cython initialiser overflowed its
 buffer when loading plugins

---
 src/extensions.c   | 4 ++--
 src/subprotocols.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/extensions.c b/src/extensions.c
index 456760f..8fd510c 100644
--- a/src/extensions.c
+++ b/src/extensions.c
@@ -140,8 +140,8 @@ void WSS_load_extensions(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
-        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
+        sprintf(pyname, "PyInit_%.*s", name_length, name);
+        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, pyname)) != NULL) ) {
             proto->pyinit(); 
         }
         WSS_free((void **) &pyname);
diff --git a/src/subprotocols.c b/src/subprotocols.c
index f4dfc96..3d3b3df 100644
--- a/src/subprotocols.c
+++ b/src/subprotocols.c
@@ -130,8 +130,8 @@ void WSS_load_subprotocols(wss_config_t *config)
             return;
         }
 
-        sprintf(pyname, "PyInit_%s", name); 
-        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, name)) != NULL) ) {
+        sprintf(pyname, "PyInit_%.*s", name_length, name);
+        if ( unlikely((*(void**)(&proto->pyinit) = dlsym(proto->handle, pyname)) != NULL) ) {
             proto->pyinit(); 
         }
         WSS_free((void **) &pyname);
-- 
2.43.0


From a2fb68136c2302bdb65fd5e8b5d58f0664d8e89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 09/57] fix: a file that cannot be read completely must not
 leave a dangling buffer

---
 src/str.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/str.c b/src/str.c
index 5dfa0a2..107bbdc 100644
--- a/src/str.c
+++ b/src/str.c
@@ -114,14 +114,14 @@ size_t strload(char *path, char **str) {
     if ( unlikely(fread(*str, sizeof(char), size, file) != (unsigned long)size) ) {
         WSS_log_error("Didn't read what was expected");
         fclose(file);
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
     n = fclose(file);
     if ( unlikely(n != 0) ) {
         WSS_log_error("Unable to close file: %s", strerror(errno));
-        WSS_free((void **) &str);
+        WSS_free((void **) str);
         return 0;
     }
 
-- 
2.43.0


From 42dd1df73c6bbfb871781f4955708744df1620b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 10/57] fix: Upgrade and Connection tokens are compared as a
 whole

---
 src/header.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/header.c b/src/header.c
index 0e781df..1395581 100644
--- a/src/header.c
+++ b/src/header.c
@@ -214,6 +214,8 @@ static enum HttpStatus_Code parse_header(int fd, wss_header_t *header, wss_confi
     if ( unlikely(strinarray(header->version, versions,
                 sizeof(versions)/sizeof(versions[0])) != 0) ) {
         WSS_log_trace("HTTP version that the client is using is unknown.");
+        // The response must not use it either
+        header->version = NULL;
         return HttpStatus_HTTPVersionNotSupported;
     }
 
@@ -532,7 +534,7 @@ enum HttpStatus_Code WSS_upgrade_header(wss_header_t *header, wss_config_t * con
 
     WSS_log_trace("Validating upgrade header");
 
-    if ( unlikely(NULL == header->ws_upgrade || strlen(header->ws_upgrade) < strlen(WEBSOCKET_STRING) ||
+    if ( unlikely(NULL == header->ws_upgrade || strlen(header->ws_upgrade) != strlen(WEBSOCKET_STRING) ||
             strncasecmp(WEBSOCKET_STRING, header->ws_upgrade, strlen(WEBSOCKET_STRING)) != 0) || (header->ws_type <= HIXIE76 && strncasecmp(WEBSOCKET_UPPERCASE_STRING, header->ws_upgrade, strlen(WEBSOCKET_UPPERCASE_STRING)) != 0) ) {
         WSS_log_trace("Invalid upgrade header value");
         return HttpStatus_UpgradeRequired;
@@ -552,7 +554,7 @@ enum HttpStatus_Code WSS_upgrade_header(wss_header_t *header, wss_config_t * con
     }
 
     do {
-        if ( likely(strncasecmp(UPGRADE_STRING, sep, strlen(UPGRADE_STRING)) == 0) ) {
+        if ( likely(strlen(sep) == strlen(UPGRADE_STRING) && strncasecmp(UPGRADE_STRING, sep, strlen(UPGRADE_STRING)) == 0) ) {
             break;
         }
 
-- 
2.43.0


From fe884ffc1bc663e4f4d1f829e7137987cd39b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:23 +0000
Subject: [PATCH 11/57] fix: session lifetime, ordered writes and incremental
 reads under concurrent use

Sessions could be freed while other threads used them, several threads could
write to one connection at once, and partial handshakes, frames and messages
were lost, repeated or mixed up.
---
 include/message.h |   1 +
 include/session.h |  28 +-
 include/ssl.h     |   3 +-
 src/message.c     |  72 +++--
 src/server.c      | 140 +++-------
 src/session.c     | 118 +++++++--
 src/ssl.c         |  38 +--
 src/worker.c      | 661 ++++++++++++++++++++++++++++++----------------
 8 files changed, 639 insertions(+), 422 deletions(-)

diff --git a/include/message.h b/include/message.h
index 1eada2b..0321f97 100644
--- a/include/message.h
+++ b/include/message.h
@@ -15,6 +15,7 @@ typedef struct {
     size_t length;
     char *msg;
     bool framed;
+    bool last;
 } wss_message_t;
 
 void WSS_message_send_frames(void *server, void *session, wss_frame_t **frames, size_t frames_count);
diff --git a/include/session.h b/include/session.h
index 3055e46..5e007a2 100644
--- a/include/session.h
+++ b/include/session.h
@@ -57,8 +57,11 @@ typedef struct {
     bool disconnecting;
     // Lock that ensures disconnecting check is done atomically
     pthread_mutex_t lock_disconnecting;
-    // Lock that ensures only one thread can perform IO at a time
+    // Lock that ensures only one thread handles events of the session at a time
     pthread_mutex_t lock;
+    // Lock that ensures only one thread can perform IO at a time. This is the
+    // innermost lock, no other session may be locked while holding it
+    pthread_mutex_t lock_io;
     // Attributes for the lock
     pthread_mutexattr_t lock_attr;
     // Jobs to be performed
@@ -71,6 +74,10 @@ typedef struct {
     wss_session_state_t state;
     // Which event the session should continue listening for
     wss_session_event_t event;
+    // Which event a partially performed write is waiting for
+    wss_session_event_t blocked;
+    // Whether a thread is currently handling an event of the session
+    bool working;
     // The HTTP header of the session
     wss_header_t *header;
     // A ringbuffer containing references to the messages that the session shall receive
@@ -167,6 +174,25 @@ wss_error_t WSS_session_all(void (*callback)(wss_session_t *));
  */
 wss_session_t *WSS_session_find(int fd);
 
+/**
+ * Function that finds a session using the filedescriptor of the session and
+ * increments its job counter, such that the session cannot be freed before the
+ * corresponding call to WSS_session_jobs_dec.
+ *
+ * @param 	fd 	[int] 		        "The filedescriptor associated to some session"
+ * @return 		[wss_session_t *] 	"Returns session if successful, otherwise NULL"
+ */
+wss_session_t *WSS_session_acquire(int fd);
+
+/**
+ * Function that removes the session from the hashtable, such that it cannot be
+ * found anymore.
+ *
+ * @param 	session	[wss_session_t *] 	"The session to be removed"
+ * @return 		    [wss_error_t] 	    "The error status"
+ */
+wss_error_t WSS_session_unlink(wss_session_t *session);
+
 /**
  * Function that increments the job counter atomically.
  *
diff --git a/include/ssl.h b/include/ssl.h
index 6e55b39..d49128b 100644
--- a/include/ssl.h
+++ b/include/ssl.h
@@ -97,10 +97,9 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session);
  * Function frees SSL session instance that was used to serve over https.
  *
  * @param   session	[wss_session_t *] 	    "The session instance"
- * @param   lock	[pthread_rwlock_t *] 	"The read/write session lock"
  * @return 			[wss_error_t]           "An error or success"
  */
-wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock);
+wss_error_t WSS_session_ssl_free(wss_session_t *session);
 
 /**
  * Function creates a sha1 hash of the key.
diff --git a/src/message.c b/src/message.c
index 6e45c1d..81b53ac 100644
--- a/src/message.c
+++ b/src/message.c
@@ -10,7 +10,7 @@
 #include "error.h"
 #include "predict.h"
 
-#include <time.h>
+#include <sys/socket.h>
 
 void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_t frames_count) {
     size_t j, k;
@@ -19,10 +19,21 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     uint64_t out_length;
     wss_message_t *m;
     ringbuf_worker_t *w = NULL;
-    struct timespec tim;
     wss_server_t *server = (wss_server_t *)serv;
     wss_session_t *session = (wss_session_t *)sess;
 
+    // The order in which the extensions see the messages must be the order in
+    // which they are written
+    pthread_mutex_lock(&session->lock_io);
+
+    if ( unlikely(! session->handshaked || session->closing) ) {
+        WSS_log_trace("Session is not able to receive messages");
+
+        pthread_mutex_unlock(&session->lock_io);
+
+        return;
+    }
+
     // Use extensions
     if ( NULL != session->header->ws_extensions ) {
         for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
@@ -40,6 +51,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
     if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
         WSS_log_error("Unable to convert frames to message");
 
+        pthread_mutex_unlock(&session->lock_io);
+
         return;
     }
 
@@ -48,6 +61,8 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_free((void **) &out);
 
+        pthread_mutex_unlock(&session->lock_io);
+
         return;
     }
     m->msg = out;
@@ -61,42 +76,25 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
 
         WSS_message_free(m);
 
+        // The client is too slow to receive its messages, as it would miss this
+        // one the connection is given up
+        session->closing = true;
+        shutdown(session->fd, SHUT_RDWR);
+
+        pthread_mutex_unlock(&session->lock_io);
+
         return;
     }
 
     session->messages[off] = m;
     ringbuf_produce(session->ringbuf, &w);
-    tim.tv_sec = 0;
-    tim.tv_nsec = 100000000;
-
-    do {
-        pthread_mutex_lock(&session->lock);
-
-        switch (session->state) {
-        case READING:
-            pthread_mutex_unlock(&session->lock);
-            nanosleep(&tim, NULL);
-            break;
-        case CLOSING:
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        case CONNECTING:
-            pthread_mutex_unlock(&session->lock);
-            nanosleep(&tim, NULL);
-            break;
-        case WRITING:
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        case IDLE:
-            session->state = WRITING;
-            WSS_write(server, session);
-            WSS_session_jobs_dec(session);
-            pthread_mutex_unlock(&session->lock);
-            return;
-        }
-    } while (1);
+
+    // If a write is waiting for the client, this message is written thereafter
+    if ( likely(NONE == session->blocked) ) {
+        WSS_write(server, session);
+    }
+
+    pthread_mutex_unlock(&session->lock_io);
 }
 
 void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t message_length) {
@@ -106,14 +104,12 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
     wss_frame_t **frames;
     wss_server_t *server = servers.http;
 
-    if ( unlikely(NULL == (session = WSS_session_find(fd))) ) {
+    if ( unlikely(NULL == (session = WSS_session_acquire(fd))) ) {
         WSS_log_error("Unable to find session to send message to");
         return;
     }
 
-    WSS_session_jobs_inc(session);
-
-    if (NULL != session->ssl && session->ssl_connected) {
+    if (NULL != session->ssl) {
         server = servers.https;
     }
 
@@ -127,6 +123,8 @@ void WSS_message_send(int fd, wss_opcode_t opcode, char *message, uint64_t messa
         WSS_free_frame(frames[k]);
     }
     WSS_free((void **) &frames);
+
+    WSS_session_jobs_dec(session);
 }
 
 void WSS_message_free(wss_message_t *msg) {
diff --git a/src/server.c b/src/server.c
index 0cdca9d..190f96d 100644
--- a/src/server.c
+++ b/src/server.c
@@ -39,132 +39,61 @@ wss_servers_t servers;
  */
 struct timespec now;
 
-static inline void write_control_frame(wss_frame_t *frame, wss_session_t *session) {
-    size_t j;
-    char *message;
-    size_t message_length;
-    int n = 0;
-    int fd = session->fd;
-
-    // Use extensions
-    for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
-        session->header->ws_extensions[j]->ext->outframes(
-                fd,
-                &frame,
-                1);
-
-        session->header->ws_extensions[j]->ext->outframe(
-                fd,
-                frame);
-    }
-
-    if (0 == (message_length = WSS_stringify_frame(frame, &message))) {
-        WSS_log_fatal("Unable to represent frame as bytes");
-        WSS_free_frame(frame);
-        return;
-    }
-
-    WSS_free_frame(frame);
-
-    if (session->ssl_connected) {
-        WSS_ssl_write(session, message, message_length);
-    } else {
-        size_t written = 0;
-        do {
-            n = write(fd, message+written, message_length-written);
-            if ( unlikely(n < 0) ) {
-                if ( likely(errno == EINTR) ) {
-                    errno = 0;
-                    n = 0;
-                    continue;
-                }
-                break;
-            }
-            written += n;
-        } while ( written < message_length );
-    }
-
-    WSS_free((void **) &message);
-}
-
+/**
+ * Function that checks whether a session has timed out. The session cannot be
+ * freed meanwhile, as the sessions are locked while iterating through them.
+ *
+ * @param 	session	[wss_session_t *]   "The session"
+ * @return 	        [void]
+ */
 static void cleanup_session(wss_session_t *session) {
-    wss_error_t err;
     wss_frame_t *frame;
     long unsigned int ms;
+    bool handshaked, closing;
     int fd = session->fd;
     wss_server_t *server = servers.http;
-    bool dc;
-
-    if (! session->handshaked) {
-        return;
-    }
 
-    if (NULL != session->ssl && session->ssl_connected) {
+    if (NULL != session->ssl) {
         server = servers.https;
     }
 
+    pthread_mutex_lock(&session->lock_io);
+    handshaked = session->handshaked;
+    closing = session->closing;
     ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
 
+    // The session could have been active since the current time was read
+    if ( unlikely(now.tv_sec < session->alive.tv_sec || (now.tv_sec == session->alive.tv_sec && now.tv_nsec < session->alive.tv_nsec)) ) {
+        ms = 0;
+    }
+    pthread_mutex_unlock(&session->lock_io);
+
+    if ( unlikely(closing) ) {
+        return;
+    }
+
     WSS_log_info("Check timeout %d ms", ms);
 
     // Session timed out
     if ( unlikely(server->config->timeout_client >= 0 && ms >= (long unsigned int)server->config->timeout_client) ) {
-        WSS_session_is_disconnecting(session, &dc);
-        if (dc) {
-            return;
-        }
-
-        WSS_session_jobs_wait(session);
-
         WSS_log_info("Session %d has timedout last active %d ms ago", fd, ms);
 
-        session->closing = true;
-        session->state = CLOSING;
-
-        if (! session->ssl_connected) {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTP request, due to timing out", session->fd, session->ip, session->port);
-        } else {
-            WSS_log_trace("Session %d disconnected from ip: %s:%d using HTTPS request, due to timing out", session->fd, session->ip, session->port);
-        }
-
-        WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
+        if ( likely(handshaked) ) {
+            WSS_log_trace("Sending close frame", fd);
 
-        if ( NULL != session->header && session->header->ws_protocol != NULL ) {
-            WSS_log_trace("Informing subprotocol about session close");
-            session->header->ws_protocol->close(session->fd);
-        }
-
-        WSS_log_trace("Removing poll filedescriptor from eventlist");
-
-        WSS_poll_remove(server, fd);
-
-        WSS_log_trace("Sending close frame", fd);
-
-        frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL);
-
-        write_control_frame(frame, session);
-
-        WSS_log_trace("Deleting client session");
-
-        if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete_no_lock(session))) ) {
-            switch (err) {
-                case WSS_SSL_SHUTDOWN_READ_ERROR:
-                        WSS_poll_set_read(server, fd);
-                    return;
-                case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                        WSS_poll_set_write(server, fd);
-                    return;
-                default:
-                    break;
-            }
-            WSS_log_error("Unable to delete client session, received error code: %d", err);
-            return;
+            frame = WSS_closing_frame(CLOSE_TRY_AGAIN, NULL);
+            WSS_message_send_frames(server, session, &frame, 1);
+            WSS_free_frame(frame);
         }
 
-        WSS_log_info("Client with session %d disconnected", fd);
+        // The session is disconnected by the event this gives rise to
+        pthread_mutex_lock(&session->lock_io);
+        session->closing = true;
+        shutdown(fd, SHUT_RDWR);
+        pthread_mutex_unlock(&session->lock_io);
 
     // Ping session to keep it alive
-    } else if (server->config->timeout_pings > 0 ) {
+    } else if (handshaked && server->config->timeout_pings > 0 ) {
         WSS_log_info("Pinging session %d", fd);
 
         frame = WSS_ping_frame();
@@ -181,7 +110,8 @@ static void cleanup_session(wss_session_t *session) {
 
         memcpy(session->pong, frame->payload+frame->extensionDataLength, frame->applicationDataLength);
 
-        write_control_frame(frame, session);
+        WSS_message_send_frames(server, session, &frame, 1);
+        WSS_free_frame(frame);
     }
 }
 
diff --git a/src/session.c b/src/session.c
index d3a1039..12dcfca 100644
--- a/src/session.c
+++ b/src/session.c
@@ -89,6 +89,8 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
     if ( unlikely((err = pthread_mutexattr_settype(&session->lock_attr, PTHREAD_MUTEX_RECURSIVE)) != 0) ) {
         WSS_log_error("Unable to initialize session locks attributes: %s", strerror(err));
         WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
     }
 
     if ( unlikely((err = pthread_mutex_init(&session->lock, &session->lock_attr)) != 0) ) {
@@ -118,9 +120,22 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
         return NULL;
     }
 
+    if ( unlikely((err = pthread_mutex_init(&session->lock_io, &session->lock_attr)) != 0) ) {
+        WSS_log_error("Unable to initialize session io lock: %s", strerror(err));
+        pthread_mutex_destroy(&session->lock);
+        pthread_mutex_destroy(&session->lock_jobs);
+        pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_mutexattr_destroy(&session->lock_attr);
+        WSS_free((void **) &session);
+        pthread_rwlock_unlock(&lock);
+        return NULL;
+    }
+
     session->fd = fd;
     session->port = port;
     session->header = NULL;
+    // No other thread may consider the session timed out before it is set up
+    clock_gettime(CLOCK_MONOTONIC, &session->alive);
 
     length = strlen(ip);
     if ( unlikely(NULL == (session->ip = (char *) WSS_malloc( (length+1)*sizeof(char)))) ) {
@@ -128,6 +143,7 @@ wss_session_t *WSS_session_add(int fd, char* ip, int port) {
         pthread_mutex_destroy(&session->lock);
         pthread_mutex_destroy(&session->lock_jobs);
         pthread_mutex_destroy(&session->lock_disconnecting);
+        pthread_mutex_destroy(&session->lock_io);
         pthread_mutexattr_destroy(&session->lock_attr);
         WSS_free((void **) &session);
         pthread_rwlock_unlock(&lock);
@@ -148,11 +164,14 @@ static wss_error_t session_delete(wss_session_t *session) {
     size_t j;
 
     if ( likely(NULL != session) ) {
-        pthread_mutex_unlock(&session->lock);
         if ( unlikely((err = pthread_mutex_destroy(&session->lock)) != 0) ) {
             err = WSS_SESSION_LOCK_DESTROY_ERROR;
         }
 
+        if ( unlikely((err = pthread_mutex_destroy(&session->lock_io)) != 0) ) {
+            err = WSS_SESSION_LOCK_DESTROY_ERROR;
+        }
+
         if ( unlikely((err = pthread_mutexattr_destroy(&session->lock_attr)) != 0) ) {
             err = WSS_SESSION_LOCK_DESTROY_ERROR;
         }
@@ -176,7 +195,7 @@ static wss_error_t session_delete(wss_session_t *session) {
 
         WSS_log_trace("Free frames");
         for (j = 0; likely(j < session->frames_length); j++) {
-            WSS_free((void **) &session->frames[j]);
+            WSS_free_frame(session->frames[j]);
         }
         WSS_free((void **) &session->frames);
 
@@ -186,7 +205,10 @@ static wss_error_t session_delete(wss_session_t *session) {
                 session->header->ws_extensions[j]->ext->close(session->fd);
             }
 
-            session->header->ws_protocol->close(session->fd);
+            // When disconnecting the subprotocol has already been informed
+            if ( unlikely(session->handshaked && ! session->disconnecting && NULL != session->header->ws_protocol) ) {
+                session->header->ws_protocol->close(session->fd);
+            }
 
             WSS_free_header(session->header);
         }
@@ -204,13 +226,9 @@ static wss_error_t session_delete(wss_session_t *session) {
         WSS_free((void **) &session->ringbuf);
 
         if (NULL != session->ssl) {
-            err = WSS_session_ssl_free(session, &lock);
+            err = WSS_session_ssl_free(session);
         }
 
-        WSS_log_trace("Deleting client from hash table");
-
-        HASH_DEL(sessions, session);
-
         WSS_log_trace("Closing client filedescriptor");
         if ( unlikely(close(session->fd) < 0) ) {
             WSS_log_error("Unable to close clients filedescriptor: %s", strerror(err));
@@ -225,9 +243,8 @@ static wss_error_t session_delete(wss_session_t *session) {
 }
 
 /**
- * Function that frees the allocated memory and removes the session from the 
- * hashtable but without locking the hashtable. This should only be used in
- * conjunction with the WSS_session_all call.
+ * Function that frees the allocated memory of a session which has already been
+ * removed from the hashtable.
  *
  * @param 	session	[wss_session_t *] 	"The session to be deleted"
  * @return 		    [wss_error_t] 	    "The error status"
@@ -254,16 +271,35 @@ wss_error_t WSS_session_delete(wss_session_t *session) {
 
     WSS_log_trace("Deleting session");
 
+    if ( unlikely((err = WSS_session_unlink(session)) != WSS_SUCCESS) ) {
+        return err;
+    }
+
+    return session_delete(session);
+}
+
+/**
+ * Function that removes the session from the hashtable, such that it cannot be
+ * found anymore.
+ *
+ * @param 	session	[wss_session_t *] 	"The session to be removed"
+ * @return 		    [wss_error_t] 	    "The error status"
+ */
+wss_error_t WSS_session_unlink(wss_session_t *session) {
+    int err;
+
+    WSS_log_trace("Deleting client from hash table");
+
     if ( unlikely((err = pthread_rwlock_wrlock(&lock)) != 0) ) {
         WSS_log_error("Unable to lock session lock: %s", strerror(err));
         return WSS_SESSION_LOCK_ERROR;
     }
 
-    err = session_delete(session);
+    HASH_DEL(sessions, session);
 
     pthread_rwlock_unlock(&lock);
 
-    return err;
+    return WSS_SUCCESS;
 }
 
 /**
@@ -272,8 +308,9 @@ wss_error_t WSS_session_delete(wss_session_t *session) {
  * @return  [wss_error_t] 	"The error status"
  */
 wss_error_t WSS_session_delete_all() {
-    wss_error_t err, tmp_err;
-    wss_session_t *session, *tmp;
+    int err;
+    wss_error_t res, tmp_err;
+    wss_session_t *session;
 
     WSS_log_trace("Deleting all sessions");
 
@@ -282,17 +319,28 @@ wss_error_t WSS_session_delete_all() {
         return WSS_SESSION_LOCK_ERROR;
     }
 
-    err = WSS_SUCCESS;
+    res = WSS_SUCCESS;
+
+    while ( likely(NULL != (session = sessions)) ) {
+        HASH_DEL(sessions, session);
+        pthread_rwlock_unlock(&lock);
+
+        // A thread of a subprotocol could be using the session
+        WSS_session_jobs_wait(session);
 
-    HASH_ITER(hh, sessions, session, tmp) {
         tmp_err = session_delete(session);
-        if ( likely(err == WSS_SUCCESS) ) {
-            err = tmp_err;
+        if ( likely(res == WSS_SUCCESS) ) {
+            res = tmp_err;
+        }
+
+        if ( unlikely((err = pthread_rwlock_wrlock(&lock)) != 0) ) {
+            WSS_log_error("Unable to lock session lock: %s", strerror(err));
+            return WSS_SESSION_LOCK_ERROR;
         }
     }
     pthread_rwlock_unlock(&lock);
 
-    return err;
+    return res;
 }
 
 /**
@@ -449,3 +497,33 @@ wss_session_t *WSS_session_find(int fd) {
 
     return session;
 }
+
+/**
+ * Function that finds a session using the filedescriptor of the session and
+ * increments its job counter, such that the session cannot be freed before the
+ * corresponding call to WSS_session_jobs_dec.
+ *
+ * @param 	fd 	[int] 		        "The filedescriptor associated to some session"
+ * @return 		[wss_session_t *] 	"Returns session if successful, otherwise NULL"
+ */
+wss_session_t *WSS_session_acquire(int fd) {
+    int err;
+    wss_session_t *session = NULL;
+
+    WSS_log_trace("Acquiring session");
+
+    if ( unlikely((err = pthread_rwlock_rdlock(&lock)) != 0) ) {
+        WSS_log_error("Unable to lock session lock", strerror(err));
+        return NULL;
+    }
+
+    HASH_FIND_INT(sessions, &fd, session);
+
+    if ( likely(NULL != session) ) {
+        WSS_session_jobs_inc(session);
+    }
+
+    pthread_rwlock_unlock(&lock);
+
+    return session;
+}
diff --git a/src/ssl.c b/src/ssl.c
index 8761990..66041e4 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -435,7 +435,7 @@ bool WSS_ssl_write_partial(wss_session_t *session, unsigned int message_index, w
         session->written = *bytes_sent;
         ringbuf_release(session->ringbuf, message_index);
 
-        session->event = READ;
+        session->blocked = READ;
 
         return false;
     }
@@ -448,7 +448,7 @@ bool WSS_ssl_write_partial(wss_session_t *session, unsigned int message_index, w
 
         ringbuf_release(session->ringbuf, message_index);
 
-        session->event = WRITE;
+        session->blocked = WRITE;
 
         return false;
     }
@@ -535,9 +535,7 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(err == SSL_ERROR_WANT_READ) ) {
         WSS_log_trace("Need to wait for further reads");
 
-        clock_gettime(CLOCK_MONOTONIC, &session->alive);
-
-        WSS_poll_set_read(server, session->fd);
+        session->event = READ;
 
         return;
     }
@@ -546,9 +544,7 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(err == SSL_ERROR_WANT_WRITE) ) {
         WSS_log_trace("Need to wait for further writes");
 
-        clock_gettime(CLOCK_MONOTONIC, &session->alive);
-
-        WSS_poll_set_write(server, session->fd);
+        session->event = WRITE;
 
         return;
     }
@@ -569,7 +565,8 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
         }
 #endif
 
-        WSS_disconnect(server, session);
+        session->closing = true;
+
         return;
     }
 
@@ -581,9 +578,7 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
 
     session->state = IDLE;
 
-    clock_gettime(CLOCK_MONOTONIC, &session->alive);
-
-    WSS_poll_set_read(server, session->fd);
+    session->event = READ;
 #endif
 }
 
@@ -602,7 +597,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = SSL_new(server->ssl_ctx))) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -610,7 +604,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(SSL_set_fd(session->ssl, session->fd) != 1) ) {
         ERR_error_string_n(ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -625,7 +618,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(NULL == (session->ssl = wolfSSL_new(server->ssl_ctx))) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to create SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -633,7 +625,6 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(wolfSSL_set_fd(session->ssl, session->fd) != 1) ) {
         wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), ssl_msg, 1024);
         WSS_log_error("Unable to bind filedescriptor to SSL structure: %s", ssl_msg);
-        WSS_disconnect(server, session);
         return false;
     }
 
@@ -650,10 +641,9 @@ bool WSS_session_ssl(wss_server_t *server, wss_session_t *session) {
  * Function frees SSL session instance that was used to serve over https.
  *
  * @param   session	[wss_session_t *] 	    "The session instance"
- * @param   lock	[pthread_rwlock_t *] 	"The read/write session lock"
  * @return 			[wss_error_t]           "An error or success"
  */
-wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock) {
+wss_error_t WSS_session_ssl_free(wss_session_t *session) {
     int err = WSS_SUCCESS;
 
 #if defined(USE_OPENSSL)
@@ -662,11 +652,9 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                // The connection is closed without waiting for the client
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
@@ -691,11 +679,9 @@ wss_error_t WSS_session_ssl_free(wss_session_t *session, pthread_rwlock_t *lock)
         err = SSL_get_error(session->ssl, err);
         switch (err) {
             case SSL_ERROR_WANT_READ:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_READ_ERROR;
             case SSL_ERROR_WANT_WRITE:
-                pthread_rwlock_unlock(lock);
-                return WSS_SSL_SHUTDOWN_WRITE_ERROR;
+                // The connection is closed without waiting for the client
+                break;
             case SSL_ERROR_SYSCALL:
                 WSS_log_error("SSL_shutdown failed: %s", strerror(errno));
                 break;
diff --git a/src/worker.c b/src/worker.c
index 2a0ec86..c9c05c0 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -4,6 +4,7 @@
 #include <string.h>             /* strerror, memset, strncpy, memcpy, strlen */
 #include <stdlib.h>             /* atoi, malloc, free, realloc */
 #include <unistd.h>             /* close, read, write */
+#include <poll.h>               /* poll */
 #include <math.h> 				/* log10 */
 #include <time.h>
 #include <locale.h>
@@ -37,6 +38,10 @@
 #include "predict.h"
 #include "ssl.h"
 
+#ifndef POLLRDHUP
+#define POLLRDHUP  0x2000
+#endif
+
 /**
  * Function that generates a handshake response, used to authorize a websocket
  * session.
@@ -186,6 +191,7 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     size_t length;
     struct stat filestat;
     char sha1Key[SHA_DIGEST_LENGTH];
+    char *sha1Ptr = sha1Key;
     char date[GMT_FORMAT_LENGTH];
     char modified[GMT_FORMAT_LENGTH];
     char savedlocale[256];
@@ -221,13 +227,16 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
         strftime(modified, sizeof modified, "%a, %d %b %Y %H:%M:%S %Z", &tm);
         setlocale(LC_ALL, savedlocale);
 
-        icon = strload(config->favicon, &ico);
+        if ( unlikely(0 == (icon = strload(config->favicon, &ico))) ) {
+            WSS_free((void **) &ico);
+            return NULL;
+        }
     } else {
         return NULL;
     }
 
     // Generate etag from favicon content
-    WSS_sha1(ico, icon, (char **)&sha1Key);
+    WSS_sha1(ico, icon, &sha1Ptr);
 
     // Convert etag binary values to hex values
     if ( unlikely(NULL == (etag = bin2hex((const unsigned char *)sha1Key, SHA_DIGEST_LENGTH))) ) {
@@ -253,13 +262,18 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     sprintf(message+line, HTTP_ICO_HEADERS, icon, date, WSS_SERVER_VERSION, etag, modified);
     memcpy(message+(line+headers), ico, icon);
 
-    msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t));
-    msg->msg = message;
-    msg->length = length;
-
     WSS_free((void **) &etag);
     WSS_free((void **) &ico);
 
+    if ( unlikely(NULL == (msg = (wss_message_t *) WSS_malloc(sizeof(wss_message_t)))) ) {
+        WSS_free((void **) &message);
+        return NULL;
+    }
+    msg->msg = message;
+    // The terminating NULL byte is not a part of the response
+    msg->length = length-1;
+    msg->last = true;
+
     return msg;
 }
 
@@ -309,7 +323,8 @@ static wss_message_t *upgrade_response(wss_header_t *header, enum HttpStatus_Cod
         return NULL;
     }
     msg->msg = message;
-    msg->length = length;
+    // The terminating NULL byte is not a part of the response
+    msg->length = length-1;
 
     return msg;
 }
@@ -361,7 +376,7 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
     body += strlen(exp)*sizeof(char);
 
     if (code == HttpStatus_NotImplemented) {
-        support = strlen(HTTP_WS_VERSION_HEADER)*sizeof(char)-6*sizeof(char);
+        support = snprintf(NULL, 0, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07);
     }
     headers += strlen(HTTP_HTML_HEADERS)*sizeof(char)-6*sizeof(char);
     headers += strlen(WSS_SERVER_VERSION)*sizeof(char);
@@ -375,7 +390,7 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
 
     sprintf(message, HTTP_STATUS_LINE, version, code, reason);
     if (code == HttpStatus_NotImplemented) {
-        sprintf(message+support, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
+        sprintf(message+line, HTTP_WS_VERSION_HEADER, RFC6455, HYBI10, HYBI07); 
     }
     sprintf(message+support+line, HTTP_HTML_HEADERS, body, date, WSS_SERVER_VERSION);
     sprintf(message+support+line+headers, HTTP_BODY, code, reason, reason, exp);
@@ -385,26 +400,36 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
         return NULL;
     }
     msg->msg = message;
-    msg->length = length;
+    // The terminating NULL byte is not a part of the response
+    msg->length = length-1;
+    msg->last = true;
 
     return msg;
 }
 
 /**
  * Function that disconnects a session and freeing any allocated memory used by
- * the session.
+ * the session. The caller must hold a job on the session, which is released by
+ * this function, but none of its locks. The session must not be used afterwards.
  *
  * @param 	server	[wss_server_t *] 	"The server structure"
  * @param 	session	[wss_session_t *] 	"The session structure"
  * @return          [void]
  */
 void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
-    int i;
     wss_error_t err;
     bool dc;
 
     // If we are already closing
     WSS_session_is_disconnecting(session, &dc);
+
+    if (! dc) {
+        // From here on the session cannot be found by other threads
+        WSS_session_unlink(session);
+    }
+
+    WSS_session_jobs_dec(session);
+
     if (dc) {
         return;
     }
@@ -415,7 +440,7 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
 
     WSS_log_trace("Informing subprotocol of client with file descriptor %d disconnecting", session->fd);
 
-    if ( NULL != session->header && session->header->ws_protocol != NULL ) {
+    if ( session->handshaked && NULL != session->header && session->header->ws_protocol != NULL ) {
         WSS_log_trace("Informing subprotocol about session close");
         session->header->ws_protocol->close(session->fd);
     }
@@ -432,23 +457,52 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
         WSS_log_info("Session %d disconnected from ip: %s:%d using HTTPS request", session->fd, session->ip, session->port);
     }
 
-    for (i = 0; i < session->jobs; i++) {
-        pthread_mutex_unlock(&session->lock);
+    if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete_no_lock(session))) ) {
+        WSS_log_error("Unable to delete client session, received error code: %d", err);
     }
+}
 
-    if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete(session))) ) {
-        switch (err) {
-            case WSS_SSL_SHUTDOWN_READ_ERROR:
-                session->event = READ;
-                return;
-            case WSS_SSL_SHUTDOWN_WRITE_ERROR:
-                session->event = WRITE;
-                return;
-            default:
-                break;
+/**
+ * Function that ends the handling of an event of a session, that is, waits for
+ * the next event of the session or disconnects it. Releases the lock of the
+ * session and the job held by the caller. The session must not be used
+ * afterwards.
+ *
+ * @param 	server	[wss_server_t *] 	"The server structure"
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @return          [void]
+ */
+static void finish(wss_server_t *server, wss_session_t *session) {
+    bool closing;
+    wss_session_event_t event;
+
+    pthread_mutex_lock(&session->lock_io);
+
+    closing = session->closing;
+    if ( likely(! closing) ) {
+        session->working = false;
+
+        event = session->event;
+        if ( unlikely(NONE != session->blocked) ) {
+            event = session->blocked;
         }
-        WSS_log_error("Unable to delete client session, received error code: %d", err);
-        return;
+
+        clock_gettime(CLOCK_MONOTONIC, &session->alive);
+
+        if ( unlikely(WRITE == event) ) {
+            WSS_poll_set_write(server, session->fd);
+        } else {
+            WSS_poll_set_read(server, session->fd);
+        }
+    }
+
+    pthread_mutex_unlock(&session->lock_io);
+    pthread_mutex_unlock(&session->lock);
+
+    if ( unlikely(closing) ) {
+        WSS_disconnect(server, session);
+    } else {
+        WSS_session_jobs_dec(session);
     }
 }
 
@@ -463,23 +517,31 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
  */
 void WSS_connect(wss_server_t *server) {
     int client_fd;
-    struct sockaddr_in client;
+    struct sockaddr_in6 client;
+    char ip[INET6_ADDRSTRLEN];
     size_t ringbuf_obj_size;
     socklen_t client_size;
     wss_session_t *session;
     ringbuf_t *ringbuf;
     size_t workers = server->config->pool_workers+1;
 
-    client_size	= sizeof(client);
-    memset((char *) &client, '\0', sizeof(client));
-
     while (1) {
+        client_size	= sizeof(client);
+        memset((char *) &client, '\0', sizeof(client));
+        memset(ip, '\0', sizeof(ip));
+
         if ( (client_fd = accept(server->fd, (struct sockaddr *) &client,
                         &client_size)) < 0 ) {
             if ( likely(EAGAIN == errno || EWOULDBLOCK == errno) ) {
                 break;
             }
 
+            // A single connection that could not be accepted must not keep the
+            // following ones waiting
+            if ( likely(EINTR == errno || ECONNABORTED == errno) ) {
+                continue;
+            }
+
             WSS_log_fatal("Accept failed: %s", strerror(errno));
             break;
         }
@@ -490,8 +552,15 @@ void WSS_connect(wss_server_t *server) {
 
         WSS_log_trace("Client filedescriptor was set to non-blocking");
 
-        if ( unlikely(NULL == (session = WSS_session_add(client_fd,
-                        inet_ntoa(client.sin_addr), ntohs(client.sin_port)))) ) {
+        // The server is listening on both IPv4 and IPv6
+        if ( likely(IN6_IS_ADDR_V4MAPPED(&client.sin6_addr)) ) {
+            inet_ntop(AF_INET, &client.sin6_addr.s6_addr[12], ip, sizeof(ip));
+        } else {
+            inet_ntop(AF_INET6, &client.sin6_addr, ip, sizeof(ip));
+        }
+
+        if ( unlikely(NULL == (session = WSS_session_add(client_fd, ip, ntohs(client.sin6_port)))) ) {
+            close(client_fd);
             continue;
         }
 
@@ -505,6 +574,7 @@ void WSS_connect(wss_server_t *server) {
         ringbuf_get_sizes(0, workers, &ringbuf_obj_size, NULL);
         if ( unlikely(NULL == (ringbuf = WSS_malloc(ringbuf_obj_size))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer");
+            pthread_mutex_unlock(&session->lock);
             WSS_disconnect(server, session);
             return;
         }
@@ -512,6 +582,7 @@ void WSS_connect(wss_server_t *server) {
         if ( unlikely(NULL == (session->messages = WSS_malloc(server->config->size_ringbuffer*sizeof(wss_message_t *)))) ) {
             WSS_log_fatal("Failed to allocate memory for ringbuffer messages");
             WSS_free((void **)&ringbuf);
+            pthread_mutex_unlock(&session->lock);
             WSS_disconnect(server, session);
             return;
         }
@@ -528,27 +599,36 @@ void WSS_connect(wss_server_t *server) {
 
         if (NULL != server->ssl_ctx) {
             if (! WSS_session_ssl(server, session)) {
-                WSS_free((void **)&ringbuf);
-                return;
+                session->closing = true;
+            } else {
+                WSS_ssl_handshake(server, session);
             }
-
-            WSS_ssl_handshake(server, session);
         } else {
             session->state = IDLE;
 
-            clock_gettime(CLOCK_MONOTONIC, &session->alive);
-
-            WSS_poll_set_read(server, session->fd);
+            session->event = READ;
 
             WSS_log_info("Client with session %d connected", session->fd);
 
         }
 
-        WSS_session_jobs_dec(session);
-        pthread_mutex_unlock(&session->lock);
+        finish(server, session);
     }
 }
 
+/**
+ * Function that marks that the session should be disconnected when its current
+ * event has been handled.
+ *
+ * @param 	session     [wss_session_t *] 	"The client session"
+ * @return              [void]
+ */
+static void close_session(wss_session_t *session) {
+    pthread_mutex_lock(&session->lock_io);
+    session->closing = true;
+    pthread_mutex_unlock(&session->lock_io);
+}
+
 /**
  * Puts a message in the client sessions writing buffer.
  *
@@ -562,7 +642,11 @@ static wss_error_t write_internal(wss_session_t *session, wss_message_t *mes) {
 
     WSS_log_trace("Putting message into ringbuffer");
 
+    pthread_mutex_lock(&session->lock_io);
+
     if ( unlikely(-1 == (off = ringbuf_acquire(session->ringbuf, &w, 1))) ) {
+        pthread_mutex_unlock(&session->lock_io);
+
         WSS_free((void **) &mes->msg);
         WSS_free((void **) &mes);
 
@@ -573,6 +657,8 @@ static wss_error_t write_internal(wss_session_t *session, wss_message_t *mes) {
     session->messages[off] = mes;
     ringbuf_produce(session->ringbuf, &w);
 
+    pthread_mutex_unlock(&session->lock_io);
+
     return WSS_SUCCESS;
 }
 
@@ -589,7 +675,9 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
     int n;
 
     if ( NULL != session->ssl ) {
+        pthread_mutex_lock(&session->lock_io);
         n = WSS_ssl_read(server, session, buffer);
+        pthread_mutex_unlock(&session->lock_io);
     } else {
         do {
             n = read(session->fd, buffer, server->config->size_buffer);
@@ -599,7 +687,7 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
                     continue;
                 } else if ( unlikely(errno != EAGAIN && errno != EWOULDBLOCK) ) {
                     WSS_log_error("Read failed: %s", strerror(errno));
-                    session->closing = true;
+                    close_session(session);
                 } else {
                     n = 0;
                 }
@@ -610,6 +698,58 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
     return n;
 }
 
+/**
+ * Frees the header of a request that did not end up as a connection
+ *
+ * @param 	session     [wss_session_t *] 	"The client session"
+ * @param 	header      [wss_header_t *] 	"The header"
+ * @return              [void]
+ */
+static void free_header(wss_session_t *session, wss_header_t *header) {
+    size_t i;
+
+    for (i = 0; i < header->ws_extensions_count; i++) {
+        header->ws_extensions[i]->ext->close(session->fd);
+    }
+
+    WSS_free_header(header);
+}
+
+/**
+ * Determines whether the header of a request has been received completely
+ *
+ * @param 	header      [wss_header_t *] 	"The header"
+ * @return              [bool]              "Whether the header is complete"
+ */
+static bool header_received(wss_header_t *header) {
+    size_t i;
+
+    for (i = 3; i < header->length; i++) {
+        if ( unlikely(memcmp(header->content+i-3, "\r\n\r\n", 4) == 0) ) {
+            return true;
+        }
+    }
+
+    return false;
+}
+
+/**
+ * Answers a request that did not end up as a connection
+ *
+ * @param 	server      [wss_server_t *] 	"A server instance"
+ * @param 	session     [wss_session_t *] 	"The client session"
+ * @param 	message     [wss_message_t *] 	"The response or NULL if it could not be created"
+ * @return              [void]
+ */
+static void respond(wss_server_t *server, wss_session_t *session, wss_message_t *message) {
+    if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
+        session->event = READ;
+        WSS_write(server, session);
+    } else {
+        close_session(session);
+    }
+}
+
 /**
  * Performs a websocket handshake with the client session
  *
@@ -626,6 +766,7 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     if ( unlikely(NULL == (buffer = WSS_malloc(server->config->size_buffer)))) {
         WSS_log_fatal("Unable to allocate buffer");
+        close_session(session);
         return;
     }
 
@@ -637,6 +778,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     } else {
         if ( unlikely(NULL == (header = WSS_malloc(sizeof(wss_header_t)))) ) {
             WSS_log_fatal("Unable to allocate header");
+            WSS_free((void **)&buffer);
+            close_session(session);
             return;
         }
 
@@ -670,6 +813,8 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         switch (n) {
             // Wait for IO for either read or write on the filedescriptor
             case -2:
+                WSS_free((void **)&buffer);
+
                 session->header = header;
 
                 session->event = WRITE;
@@ -679,14 +824,12 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
             case -1:
                 WSS_log_trace("Rejecting HTTP request due to being unable to read from client");
 
+                WSS_free((void **)&buffer);
+
                 message = http_response(header, HttpStatus_InternalServerError, "Unable to read from client");
-                WSS_free_header(header);
+                free_header(session, header);
 
-                if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                    session->state = WRITING;
-                    session->event = READ;
-                    WSS_write(server, session);
-                }
+                respond(server, session, message);
 
                 return;
             case 0:
@@ -695,6 +838,9 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 // Reallocate space for the header and copy buffer into it
                 if ( unlikely(NULL == (header->content = WSS_realloc((void **) &header->content, header->length*sizeof(char), (header->length+n+1)*sizeof(char)))) ) {
                     WSS_log_fatal("Unable to realloc header content");
+                    WSS_free((void **)&buffer);
+                    free_header(session, header);
+                    close_session(session);
                     return;
                 }
                 memcpy(header->content+header->length, buffer, n);
@@ -706,15 +852,13 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                 if ( unlikely(header->length > (server->config->size_header+server->config->size_uri+server->config->size_payload)) ) {
                     WSS_log_trace("Rejecting HTTP request as client payload is too large for the server to handle");
 
+                    WSS_free((void **)&buffer);
+
                     message = http_response(header, HttpStatus_PayloadTooLarge,
                             "The given payload is too large for the server to handle");
-                    WSS_free_header(header);
+                    free_header(session, header);
 
-                    if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                        session->state = WRITING;
-                        session->event = READ;
-                        WSS_write(server, session);
-                    }
+                    respond(server, session, message);
 
                     return;
                 }
@@ -724,6 +868,19 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
 
     WSS_free((void **)&buffer);
 
+    // Wait for the rest of the header, it is limited in size above
+    if ( unlikely(! header_received(header)) ) {
+        WSS_log_trace("Detected that data was missing in order to complete header, will wait for more");
+
+        session->header = header;
+        session->event = READ;
+
+        return;
+    }
+
+    // The request is complete
+    session->state = IDLE;
+
     WSS_log_debug("Client header: \n%s", header->content);
 
     WSS_log_trace("Starting parsing header received from client");
@@ -734,13 +891,9 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
         WSS_log_trace("Rejecting HTTP request due to header not being correct");
 
         message = http_response(header, code, (char *)HttpStatus_reasonPhrase(code));
-        WSS_free_header(header);
+        free_header(session, header);
 
-        if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-            session->state = WRITING;
-            session->event = READ;
-            WSS_write(server, session);
-        }
+        respond(server, session, message);
 
         return;
     }
@@ -749,29 +902,21 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     if (strlen(header->path) == 12 && strncmp(header->path, "/favicon.ico", 12) == 0) {
         message = favicon_response(header, code, server->config);
         if (NULL != message) {
-            WSS_free_header(header);
+            free_header(session, header);
 
             WSS_log_trace("Serving a favicon to the client");
 
             // Find and serve favicon.
-            if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-                session->state = WRITING;
-                session->event = READ;
-                WSS_write(server, session);
-            }
+            respond(server, session, message);
         } else {
             WSS_log_trace("Rejecting HTTP request due to favicon not being available");
 
             // Else notify client that favicon could not be found
             code = HttpStatus_NotFound;
             message = http_response(header, code, (char *)HttpStatus_reasonPhrase(code));
-            WSS_free_header(header);
+            free_header(session, header);
 
-            if ( likely(NULL != message && WSS_SUCCESS == write_internal(session, message)) ) {
-                session->state = WRITING;
-                session->event = READ;
-                WSS_write(server, session);
-            }
+            respond(server, session, message);
         }
 
         return;
@@ -793,7 +938,19 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
                     "Websocket protocol is not yet implemented");
             break;
         case HttpStatus_SwitchingProtocols:
+            // The response names the protocol only if it was chosen by the client
             message = handshake_response(header, code);
+            // Use echo protocol if none was chosen
+            if (NULL == header->ws_protocol && unlikely(NULL == (header->ws_protocol = WSS_find_subprotocol("echo"))) ) {
+                WSS_log_trace("Rejecting HTTP request as no subprotocol is available.");
+                if ( likely(NULL != message) ) {
+                    WSS_free((void **) &message->msg);
+                    WSS_free((void **) &message);
+                }
+                code = HttpStatus_BadRequest;
+                message = http_response(header, code,
+                        (char *)HttpStatus_reasonPhrase(code));
+            }
             break;
         case HttpStatus_NotFound:
             WSS_log_trace("Rejecting HTTP request as the page requested was not found.");
@@ -813,37 +970,47 @@ static void handshake(wss_server_t *server, wss_session_t *session) {
     }
 
     // If code status isnt switching protocols, we notify client with a HTTP error
-    if (code != HttpStatus_SwitchingProtocols) {
+    if (code != HttpStatus_SwitchingProtocols || unlikely(NULL == message)) {
         WSS_log_trace("Unable to establish websocket connection");
 
-        if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-            session->state = WRITING;
-            session->event = READ;
-            WSS_write(server, session);
-        }
+        respond(server, session, message);
 
-        WSS_free_header(header);
+        free_header(session, header);
 
         return;
     }
 
-    // Use echo protocol if none was chosen
-    if (NULL == header->ws_protocol) {
-        header->ws_protocol = WSS_find_subprotocol("echo");
+    // Set session as fully handshaked. The response must be the first message
+    // for the client, no matter who is the first to write to it
+    pthread_mutex_lock(&session->lock_io);
+    session->handshaked = true;
+    session->header = header;
+    if ( unlikely(WSS_SUCCESS != write_internal(session, message)) ) {
+        session->closing = true;
     }
+    pthread_mutex_unlock(&session->lock_io);
 
     // Notify websocket protocol of the connection
     header->ws_protocol->connect(session->fd, session->ip, session->port, header->path, header->cookies);
 
-    // Set session as fully handshaked
-    session->handshaked = true;
-    session->header = header;
+    session->event = READ;
+    WSS_write(server, session);
+}
 
-    if ( likely(WSS_SUCCESS == write_internal(session, message)) ) {
-        session->state = WRITING;
-        session->event = READ;
-        WSS_write(server, session);
+/**
+ * Function that frees a list of frames.
+ *
+ * @param 	frames          [wss_frame_t **] 	"The frames"
+ * @param 	frames_length   [size_t] 	        "The amount of frames"
+ * @return                  [void]
+ */
+static void free_frames(wss_frame_t **frames, size_t frames_length) {
+    size_t i;
+
+    for (i = 0; likely(i < frames_length); i++) {
+        WSS_free_frame(frames[i]);
     }
+    WSS_free((void **) &frames);
 }
 
 /**
@@ -872,7 +1039,9 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     size_t msg_length = 0;
     size_t msg_offset = 0;
     size_t starting_frame = 0;
+    size_t message_frames = 0;
     bool fragmented = false;
+    bool invalid;
     char *buffer;
 
     // If no initial header has been seen for the session, the websocket
@@ -887,7 +1056,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
     if ( unlikely(NULL == (buffer = WSS_malloc(server->config->size_buffer)))) {
         WSS_log_error("Unable to allocate buffer");
-        session->closing = true;
+        close_session(session);
         return;
     }
 
@@ -903,6 +1072,9 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     session->frames = NULL;
     session->frames_length = 0;
 
+    // All frames left are part of the same message
+    message_frames = frames_length;
+
     // If handshake has been made, we can read the websocket frames from
     // the connection
     do {
@@ -912,15 +1084,22 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             // Wait for IO for either read or write on the filedescriptor
             case -2:
                 WSS_log_trace("Detected that server needs further IO to complete the reading");
+                WSS_free((void **) &buffer);
+
                 session->payload = payload;
                 session->payload_length = payload_length;
+                session->offset = offset;
+                session->frames = frames;
+                session->frames_length = frames_length;
 
                 session->event = WRITE;
 
                 return;
             // An error occured
             case -1:
+                WSS_free((void **) &buffer);
                 WSS_free((void **) &payload);
+                free_frames(frames, frames_length);
 
                 frame = WSS_closing_frame(CLOSE_UNEXPECTED, NULL);
                 message_length = WSS_stringify_frame(frame, &message);
@@ -929,7 +1108,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                 if ( unlikely(NULL == (m = WSS_malloc(sizeof(wss_message_t)))) ) {
                     WSS_log_error("Unable to allocate the message structure");
                     WSS_free((void **) &message);
-                    session->closing = true;
+                    close_session(session);
                     return;
                 }
                 m->msg = message;
@@ -937,7 +1116,6 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                 m->framed = true;
 
                 if ( likely(WSS_SUCCESS == write_internal(session, m)) ) {
-                    session->state = WRITING;
                     session->event = READ;
                     WSS_write(server, session);
                 }
@@ -949,7 +1127,9 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             default:
                 if ( unlikely(NULL == (payload = WSS_realloc((void **) &payload, payload_length*sizeof(char), (payload_length+n+1)*sizeof(char)))) ) {
                     WSS_log_error("Unable to reallocate the payload");
-                    session->closing = true;
+                    WSS_free((void **) &buffer);
+                    free_frames(frames, frames_length);
+                    close_session(session);
                     return;
                 }
 
@@ -966,13 +1146,14 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     WSS_log_trace("Payload from client was read. Continues flow by parsing frames.");
 
     // Parse the payload into websocket frames
-    do {
+    while ( likely(offset < payload_length) ) {
         prev_offset = offset;
 
         if ( unlikely(NULL == (frame = WSS_parse_frame(payload, payload_length, &offset))) ) {
             WSS_log_trace("Unable to parse frame");
             WSS_free((void **) &payload);
-            session->closing = true;
+            free_frames(frames, frames_length);
+            close_session(session);
             return;
         }
 
@@ -983,18 +1164,19 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
             WSS_free_frame(frame);
 
+            // Keep what is missing, the frames in front of it can be handled
+            payload_length -= prev_offset;
+            memmove(payload, payload+prev_offset, payload_length);
             session->payload = payload;
             session->payload_length = payload_length;
-            session->offset = prev_offset;
-            session->frames = frames;
-            session->frames_length = frames_length;
-            session->event = READ;
+            payload = NULL;
 
-            return;
+            break;
         }
 
         // If no extension is negotiated, the rsv bits must not be used
-        if ( unlikely(NULL == session->header->ws_extensions && (frame->rsv1 || frame->rsv2 || frame->rsv3)) ) {
+        // and they have no meaning for control frames
+        if ( unlikely((NULL == session->header->ws_extensions || frame->opcode >= 0x8) && (frame->rsv1 || frame->rsv2 || frame->rsv3)) ) {
             WSS_log_trace("Protocol Error: rsv bits must not be set without using extensions");
             WSS_free_frame(frame);
             frame = WSS_closing_frame(CLOSE_PROTOCOL, NULL);
@@ -1095,14 +1277,22 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         if ( unlikely(NULL == (frames = WSS_realloc((void **) &frames, frames_length*sizeof(wss_frame_t *),
                         (frames_length+1)*sizeof(wss_frame_t *)))) ) {
             WSS_log_error("Unable to reallocate frames");
-            session->closing = true;
+            WSS_free_frame(frame);
+            WSS_free((void **) &payload);
+            close_session(session);
             return;
         }
         frames[frames_length] = frame;
         frames_length += 1;
 
-        // Check if frame count is exceeded
-        if ( unlikely(frames_length > server->config->max_frames) ) {
+        if ( frame->opcode == CONTINUATION_FRAME ) {
+            message_frames += 1;
+        } else if ( frame->opcode < 0x8 ) {
+            message_frames = 1;
+        }
+
+        // Check if frame count of the message is exceeded
+        if ( unlikely(frame->opcode < 0x8 && message_frames > server->config->max_frames) ) {
             WSS_free_frame(frame);
             frame = WSS_closing_frame(CLOSE_BIG, NULL);
             frames[frames_length-1] = frame;
@@ -1114,7 +1304,7 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             WSS_log_trace("Stopping frame validation as closing frame was parsed");
             break;
         }
-    } while ( likely(offset < payload_length) );
+    }
 
     WSS_free((void **) &payload);
 
@@ -1203,16 +1393,25 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(fragmented) ) {
         WSS_log_trace("Detected missing frames in fragmented message, will wait for further IO");
 
-        session->frames = frames;
-        session->frames_length = frames_length;
-        session->event = READ;
+        len = frames_length-starting_frame;
 
-        return;
+        if ( unlikely(NULL == (session->frames = WSS_malloc(len*sizeof(wss_frame_t *)))) ) {
+            WSS_log_error("Unable to allocate frames");
+            free_frames(frames, frames_length);
+            close_session(session);
+            return;
+        }
+        memcpy(session->frames, frames+starting_frame, len*sizeof(wss_frame_t *));
+        session->frames_length = len;
+        frames_length = starting_frame;
     }
 
     WSS_log_trace("Frames was validated");
-    
-    session->state = IDLE;
+
+    // If nothing is missing the session is not in the middle of reading
+    if ( likely(NULL == session->payload && NULL == session->frames) ) {
+        session->state = IDLE;
+    }
 
     WSS_log_trace("Sending frames to receivers");
 
@@ -1247,6 +1446,14 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
                         len);
             }
 
+            // Bits that no extension made use of
+            invalid = false;
+            for (j = starting_frame; likely(j <= i); j++) {
+                if ( unlikely(frames[j]->rsv1 || frames[j]->rsv2 || frames[j]->rsv3) ) {
+                    invalid = true;
+                }
+            }
+
             WSS_log_trace("Assembling message");
 
             for (j = starting_frame; likely(j <= i); j++) {
@@ -1256,12 +1463,9 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             if ( unlikely(NULL == (msg = WSS_malloc((msg_length+1)*sizeof(char)))) ) {
                 WSS_log_error("Unable to allocate message");
 
-                for (k = 0; likely(k < frames_length); k++) {
-                    WSS_free_frame(frames[k]);
-                }
-                WSS_free((void **) &frames);
+                free_frames(frames, frames_length);
 
-                session->closing = true;
+                close_session(session);
 
                 return;
             }
@@ -1274,13 +1478,13 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             WSS_log_debug("Unmasked message (%d bytes): %s\n", msg_length, msg);
 
             // Check utf8 for text frames
-            if ( unlikely(frames[starting_frame]->opcode == TEXT_FRAME && ! utf8_check(msg, msg_length)) ) {
-                WSS_log_trace("UTF8 Error: the text was not UTF8 encoded correctly");
+            if ( unlikely(invalid || (frames[starting_frame]->opcode == TEXT_FRAME && ! utf8_check(msg, msg_length))) ) {
+                WSS_log_trace("Error: the text was not UTF8 encoded correctly or used unknown rsv bits");
 
                 for (j = starting_frame; likely(j < frames_length); j++) {
                     WSS_free_frame(frames[j]);
                 }
-                frames[starting_frame] = WSS_closing_frame(CLOSE_UTF8, NULL);
+                frames[starting_frame] = WSS_closing_frame(invalid ? CLOSE_PROTOCOL : CLOSE_UTF8, NULL);
                 frames_length = starting_frame+1;
                 i = starting_frame;
                 len = 1;
@@ -1297,7 +1501,6 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
             } else {
                 WSS_log_trace("Writing control frame message");
 
-                WSS_session_jobs_inc(session);
                 WSS_message_send_frames((void *)server, (void *)session, &frames[starting_frame], len);
             }
 
@@ -1307,28 +1510,24 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
         }
     }
 
-    if ( likely(frames_length > 0) ) {
-        for (i = 0; likely(i < frames_length); i++) {
-            WSS_free_frame(frames[i]);
-        }
-        WSS_free((void **) &frames);
-    }
+    free_frames(frames, frames_length);
 
-    if (! closing && session->event == NONE) {
-        WSS_log_trace("Set epoll file descriptor to read mode after finishing read");
-        session->event = READ;
+    // No further frames are handled when the connection is closing
+    if ( unlikely(closing) ) {
+        WSS_free((void **) &session->payload);
+        session->payload_length = 0;
     }
 }
 
 /**
- * Function that writes information to a session and decides wether event poll
- * should be rearmed and whether a session lock should be performed.
+ * Function that writes the pending messages of a session.
+ *
+ * The caller must hold lock_io of the session.
  *
- * @param 	server	[wss_server_t *] 	"The server structure"
  * @param 	session	[wss_session_t *] 	"The session structure"
  * @return          [void]
  */
-void WSS_write(wss_server_t *server, wss_session_t *session) {
+static void write_pending(wss_session_t *session) {
     int n;
     wss_message_t *message;
     unsigned int i;
@@ -1337,27 +1536,21 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
     size_t len, off;
     bool closing = false;
 
-    WSS_log_trace("Performing write by popping messages from ringbuffer");
+    session->blocked = NONE;
 
     while ( likely(0 != (len = ringbuf_consume(session->ringbuf, &off))) ) {
         for (i = 0; likely(i < len); i++) {
-            if ( unlikely(session->handshaked && closing) ) {
-                WSS_log_trace("No further messages are necessary as client connection is closing");
-                break;
-            }
-
             bytes_sent = session->written;
             session->written = 0;
             message = session->messages[off+i];
             message_length = message->length;
 
-            while ( likely(bytes_sent < message_length) ) {
-                // Check if message contains closing byte
-                if ( unlikely(message->framed && bytes_sent == 0 &&
-                     ((message->msg[0] & 0xF) & 0x8) == (message->msg[0] & 0xF)) ) {
-                    closing = true;
-                }
+            // Check if message contains closing byte
+            if ( unlikely(message->last || (message->framed && (message->msg[0] & 0xF) == CLOSE_FRAME)) ) {
+                closing = true;
+            }
 
+            while ( likely(bytes_sent < message_length) ) {
                 if (NULL != session->ssl) {
                     if (! WSS_ssl_write_partial(session, i, message, &bytes_sent)) {
                         return;
@@ -1378,7 +1571,7 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
                             session->written = bytes_sent;
                             ringbuf_release(session->ringbuf, i);
 
-                            session->event = WRITE;
+                            session->blocked = WRITE;
 
                             return;
                         } else {
@@ -1396,22 +1589,56 @@ void WSS_write(wss_server_t *server, wss_session_t *session) {
                     WSS_free((void **)&session->messages[off+i]);
                 }
             }
+
+            if ( unlikely(closing) ) {
+                WSS_log_trace("Closing connection, since the last message has been sent");
+
+                session->closing = true;
+
+                return;
+            }
         }
 
         ringbuf_release(session->ringbuf, len);
     }
 
     WSS_log_trace("Done writing to filedescriptors");
+}
 
-    session->state = IDLE;
+/**
+ * Function that writes information to a session. If not everything could be
+ * written, the filedescriptor is waited upon, unless the thread handling an
+ * event of the session does so when it is finished.
+ *
+ * @param 	server	[wss_server_t *] 	"The server structure"
+ * @param 	session	[wss_session_t *] 	"The session structure"
+ * @return          [void]
+ */
+void WSS_write(wss_server_t *server, wss_session_t *session) {
+    WSS_log_trace("Performing write by popping messages from ringbuffer");
 
-    if (closing) {
-        WSS_log_trace("Closing connection, since closing frame has been sent");
+    pthread_mutex_lock(&session->lock_io);
 
-        session->closing = true;
+    if ( likely(! session->closing) ) {
+        write_pending(session);
 
-        return;
+        if ( unlikely(! session->working) ) {
+            if ( unlikely(session->closing) ) {
+                // Ends up as an event such that the session is disconnected
+                shutdown(session->fd, SHUT_RD);
+            } else if ( unlikely(NONE != session->blocked) ) {
+                clock_gettime(CLOCK_MONOTONIC, &session->alive);
+
+                if ( unlikely(READ == session->blocked) ) {
+                    WSS_poll_set_read(server, session->fd);
+                } else {
+                    WSS_poll_set_write(server, session->fd);
+                }
+            }
+        }
     }
+
+    pthread_mutex_unlock(&session->lock_io);
 }
 
 /**
@@ -1424,6 +1651,9 @@ void WSS_work(void *args) {
     wss_session_t *session;
     long unsigned int ms;
     struct timespec now;
+    struct pollfd hangup;
+    bool closing;
+    wss_session_event_t blocked;
     wss_thread_args_t *arguments = (wss_thread_args_t *) args;
     wss_server_t *server = (wss_server_t *) arguments->server;
     wss_session_state_t session_state = arguments->state;
@@ -1438,100 +1668,69 @@ void WSS_work(void *args) {
         return;
     }
 
-    if ( unlikely(NULL == (session = WSS_session_find(fd))) ) {
+    if ( unlikely(NULL == (session = WSS_session_acquire(fd))) ) {
         WSS_log_trace("Unable to find client with session %d", fd);
         return;
     }
 
-    WSS_log_trace("Incrementing session jobs");
-
-    WSS_session_jobs_inc(session);
     pthread_mutex_lock(&session->lock);
 
-    session->event = NONE;
+    pthread_mutex_lock(&session->lock_io);
+    session->working = true;
+    session->event = READ;
+    closing = session->closing;
+    blocked = session->blocked;
+    clock_gettime(CLOCK_MONOTONIC, &now);
+    ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
+
+    // The event could stem from an earlier session using the same filedescriptor
+    if ( unlikely(session_state == CLOSING) ) {
+        WSS_log_trace("Handling close event");
+        hangup.fd = fd;
+        hangup.events = POLLRDHUP;
+        if ( likely(poll(&hangup, 1, 0) != 0) ) {
+            session->closing = closing = true;
+        }
+    }
+    pthread_mutex_unlock(&session->lock_io);
 
     WSS_log_trace("Checking session state");
 
     // We first check if session was in the middle of performing an IO task but
     // needed to wait for further IO
-    switch (session->state) {
-        case WRITING:
-            clock_gettime(CLOCK_MONOTONIC, &now);
-            ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
-            if ( unlikely(server->config->timeout_write >= 0 && ms >= (long unsigned int)server->config->timeout_write) ) {
-                WSS_log_trace("Write timeout detected for session %d", fd);
-                session->closing = true;
-                break;
-            }
-
-            session->event = READ;
+    if ( unlikely(closing) ) {
+        WSS_log_trace("Session %d is closing", fd);
+    } else if ( unlikely(NONE != blocked) ) {
+        if ( unlikely(server->config->timeout_write >= 0 && ms >= (long unsigned int)server->config->timeout_write) ) {
+            WSS_log_trace("Write timeout detected for session %d", fd);
+            close_session(session);
+        } else {
+            WSS_log_trace("Handling write event");
             WSS_write(server, session);
-            break;
-        case CLOSING:
-            session->closing = true;
-            break;
-        case CONNECTING:
-            if (NULL != server->ssl_ctx) {
-                WSS_ssl_handshake(server, session);
-                WSS_session_jobs_dec(session);
-                pthread_mutex_unlock(&session->lock);
-                return;
-            }
-
-            WSS_read(server, session);
-            break;
-        case READING:
-            clock_gettime(CLOCK_MONOTONIC, &now);
-            ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
-            if ( unlikely(server->config->timeout_read >= 0 && ms >= (long unsigned int)server->config->timeout_read) ) {
-                WSS_log_trace("Read timeout detected for session %d", fd);
-                session->closing = true;
+        }
+    } else {
+        switch (session->state) {
+            case CONNECTING:
+                if (NULL != server->ssl_ctx) {
+                    WSS_ssl_handshake(server, session);
+                }
                 break;
-            }
-
-            WSS_read(server, session);
-            break;
-        case IDLE:
-            session->state = session_state;
-
-            switch (session_state) {
-                case WRITING:
-                    WSS_log_trace("Handling write event");
-                    session->event = READ;
-                    WSS_write(server, session);
+            case READING:
+                if ( unlikely(server->config->timeout_read >= 0 && ms >= (long unsigned int)server->config->timeout_read) ) {
+                    WSS_log_trace("Read timeout detected for session %d", fd);
+                    close_session(session);
                     break;
-                case CLOSING:
-                    session->closing = true;
-                    WSS_log_trace("Handling close event");
-                    break;
-                case READING:
-                    WSS_log_trace("Handling read event");
-                    WSS_read(server, session);
-                    break;
-                default:
-                    WSS_log_error("State that should not be possible at this point was encountered %s", state);
-                    break;
-            }
-    }
-
-    WSS_session_jobs_dec(session);
-    pthread_mutex_unlock(&session->lock);
+                }
 
-    if (session->closing) {
-        session->event = NONE;
-        WSS_disconnect(server, session);
+                WSS_read(server, session);
+                break;
+            default:
+                WSS_log_trace("Handling read event");
+                session->state = READING;
+                WSS_read(server, session);
+                break;
+        }
     }
 
-    switch (session->event) {
-        case WRITE: 
-            clock_gettime(CLOCK_MONOTONIC, &session->alive);
-            WSS_poll_set_write(server, session->fd);
-            break;
-        case READ: 
-            clock_gettime(CLOCK_MONOTONIC, &session->alive);
-            WSS_poll_set_read(server, session->fd);
-            break;
-        case NONE: 
-            break;
-    }
+    finish(server, session);
 }
-- 
2.43.0


From 5b3abcd680b047054ad0c3661429d276bd895887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 12/57] fix: destroying a thread pool twice kept its lock, and
 its lock was destroyed while held

---
 src/pool.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pool.c b/src/pool.c
index 7ac6527..c063961 100644
--- a/src/pool.c
+++ b/src/pool.c
@@ -232,6 +232,7 @@ int threadpool_destroy(threadpool_t *pool, int flags) {
         /* Already shutting down */
         if (pool->shutdown) {
             err = threadpool_shutdown;
+            pthread_mutex_unlock(&(pool->lock));
             break;
         }
 
@@ -275,6 +276,7 @@ int threadpool_free(threadpool_t *pool) {
            mutex and condition variable, we're sure they're
            initialized. Let's lock the mutex just in case. */
         pthread_mutex_lock(&(pool->lock));
+        pthread_mutex_unlock(&(pool->lock));
         pthread_mutex_destroy(&(pool->lock));
         pthread_cond_destroy(&(pool->notify));
     }
-- 
2.43.0


From 1d19fca7fe9955c35fd17898a5a741f50790c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 13/57] fix: work is handed over again when the queue of the
 thread pool is full

---
 src/event.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/event.c b/src/event.c
index b914dac..a5dcc55 100644
--- a/src/event.c
+++ b/src/event.c
@@ -103,8 +103,10 @@ wss_error_t WSS_add_to_threadpool(wss_server_t *server, void (*func)(void *), vo
     tim.tv_sec = 0;
     tim.tv_nsec = 100000000;
 
-    do {
-        if ( unlikely((err = threadpool_add(server->pool, func, args, 0)) != 0) ) {
+    while ( true ) {
+        if ( likely((err = threadpool_add(server->pool, func, args, 0)) == 0) ) {
+            return WSS_SUCCESS;
+        } else {
             switch (err) {
                 case threadpool_invalid:
                     WSS_log_fatal("Threadpool was served with invalid data");
@@ -137,9 +139,7 @@ wss_error_t WSS_add_to_threadpool(wss_server_t *server, void (*func)(void *), vo
                     return WSS_THREADPOOL_ERROR;
             }
         }
-    } while (0);
-
-    return WSS_SUCCESS;
+    }
 }
 
 /******************************************************************************
@@ -444,6 +444,7 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
             err = WSS_add_to_threadpool(server, &WSS_work, (void *)args);
             if ( unlikely(err != WSS_SUCCESS) ) {
                 WSS_log_fatal("Failed adding connect job to worker pool");
+                WSS_free((void **)&args);
                 return err;
             }
         } else if ( unlikely(fd == close_pipefd[0]) ) {
@@ -785,6 +786,7 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
              */
             if ( unlikely((err = WSS_add_to_threadpool(server, &WSS_work, (void *)args)) != WSS_SUCCESS) ) {
                 WSS_log_fatal("Failed adding connect job to worker pool");
+                WSS_free((void **)&args);
                 return err;
             }
         } else if ( unlikely(events[i].data.fd == close_pipefd[0]) ) {
-- 
2.43.0


From 720f040d50d3f97ba8414e50a000ad2f33ef6072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 14/57] fix: shutdown joined a thread twice, freed instances
 still in use and was lost while starting

The signal handler used locks and the log, the lock of the https instance was
never initialised and a fault was repeated forever.
---
 include/http.h |  9 +++++
 src/http.c     | 30 +++++++++++++---
 src/server.c   | 92 ++++++++++++++++++++++++++++++++++----------------
 3 files changed, 97 insertions(+), 34 deletions(-)

diff --git a/include/http.h b/include/http.h
index ce42472..c337d8d 100644
--- a/include/http.h
+++ b/include/http.h
@@ -24,6 +24,15 @@ wss_error_t WSS_http_regex_init(wss_server_t *server);
  */
 wss_error_t WSS_http_server(wss_server_t *server);
 
+/**
+ * Function that stops the instance from accepting connections and waits for the
+ * work that is already handed over to be finished.
+ *
+ * @param   server	[wss_server_t *] 	"The http server"
+ * @return 			[wss_error_t]       "The error status"
+ */
+wss_error_t WSS_http_server_stop(wss_server_t *server);
+
 /**
  * Function that free op space allocated for the http server and closes the
  * filedescriptors in use..
diff --git a/src/http.c b/src/http.c
index b95a1e5..bc29533 100644
--- a/src/http.c
+++ b/src/http.c
@@ -156,6 +156,9 @@ wss_error_t WSS_http_regex_init(wss_server_t *server) {
         }
 
         if ( unlikely((err = regcomp(server->re, request_uri, REG_EXTENDED|REG_NOSUB)) != 0) ) {
+            WSS_log_fatal("Unable to compile the allowed hosts, paths and queries as a regular expression");
+            WSS_free((void **) &server->re);
+            WSS_free((void **) &request_uri);
             return WSS_REGEX_ERROR;
         }
 
@@ -245,13 +248,13 @@ wss_error_t WSS_http_server(wss_server_t *server) {
 }
 
 /**
- * Function that free op space allocated for the http server and closes the
- * filedescriptors in use..
+ * Function that stops the instance from accepting connections and waits for the
+ * work that is already handed over to be finished.
  *
  * @param   server	[wss_server_t *] 	"The http server"
  * @return 			[wss_error_t]       "The error status"
  */
-wss_error_t WSS_http_server_free(wss_server_t *server) {
+wss_error_t WSS_http_server_stop(wss_server_t *server) {
     int err;
     int res = WSS_SUCCESS;
 
@@ -259,7 +262,7 @@ wss_error_t WSS_http_server_free(wss_server_t *server) {
         /**
          * Shutting down socket, such that no more reads is allowed.
          */
-        if ( likely(server->fd > -1) ) {
+        if ( likely(server->fd > -1 && NULL != server->pool) ) {
             if ( unlikely(shutdown(server->fd, SHUT_RD) != 0) ) {
                 WSS_log_error("Unable to shutdown for reads of server socket: %s", strerror(errno));
                 res = WSS_SOCKET_SHUTDOWN_ERROR;
@@ -294,7 +297,26 @@ wss_error_t WSS_http_server_free(wss_server_t *server) {
                         break;
                 }
             }
+
+            server->pool = NULL;
         }
+    }
+
+    return res;
+}
+
+/**
+ * Function that free op space allocated for the http server and closes the
+ * filedescriptors in use..
+ *
+ * @param   server	[wss_server_t *] 	"The http server"
+ * @return 			[wss_error_t]       "The error status"
+ */
+wss_error_t WSS_http_server_free(wss_server_t *server) {
+    int res = WSS_SUCCESS;
+
+    if ( likely(NULL != server) ) {
+        res = WSS_http_server_stop(server);
 
         if ( NULL != server->re ) {
             regfree(server->re);
diff --git a/src/server.c b/src/server.c
index 190f96d..7a7ddeb 100644
--- a/src/server.c
+++ b/src/server.c
@@ -123,10 +123,20 @@ static void cleanup_session(wss_session_t *session) {
  */
 void WSS_server_set_state(wss_state_t s) {
     pthread_mutex_lock(&state.lock);
-    state.state = s;
+    __atomic_store_n(&state.state, s, __ATOMIC_SEQ_CST);
     pthread_mutex_unlock(&state.lock);
 }
 
+/**
+ * Function that determines whether the server is running. The state is changed
+ * by a signal handler, which cannot use the lock of the state.
+ *
+ * @return 	    [bool]     "Whether the server is running"
+ */
+static inline bool running() {
+    return __atomic_load_n(&state.state, __ATOMIC_SEQ_CST) == RUNNING;
+}
+
 /**
  * Sets the maximal file descriptor seen by the server
  *
@@ -169,7 +179,7 @@ void *WSS_cleanup() {
         WSS_log_info("Cleanup thread will run every %ld milliseconds", timeout);
     }
 
-    while ( likely(state.state == RUNNING) ) {
+    while ( likely(running()) ) {
         n = poll(fds, 1, timeout);
         if ( unlikely(n < 0 && errno != EINTR) ) {
 #ifdef USE_RPMALLOC
@@ -219,7 +229,7 @@ void *WSS_server_run(void *arg) {
     }
 
     // Listen for poll events
-    while ( likely(state.state == RUNNING) ) {
+    while ( likely(running()) ) {
         err = WSS_poll_delegate(server);
         if ( unlikely(err != WSS_SUCCESS) ) {
 #ifdef USE_RPMALLOC
@@ -250,27 +260,25 @@ void *WSS_server_run(void *arg) {
  * @return 	        [void]
  */
 static void WSS_server_interrupt(int sig) {
-    int n;
+    int n, err = errno;
+    wss_state_t s;
     switch (sig) {
         case SIGINT:
         case SIGSEGV:
         case SIGILL:
         case SIGFPE:
-            if (state.state != HALTING && state.state != HALT_ERROR) {
-                WSS_log_trace("Server is shutting down gracefully");
-                WSS_server_set_state(HALTING);
+            // Locking and logging is not allowed in here
+            s = __atomic_load_n(&state.state, __ATOMIC_SEQ_CST);
+            if (s != HALTING && s != HALT_ERROR) {
+                __atomic_store_n(&state.state, HALTING, __ATOMIC_SEQ_CST);
                 if (close_pipefd[0] != -1 && close_pipefd[1] != -1) {
                     do {
                         errno = 0;
                         n = write(close_pipefd[1], "HALT", 5);
-                        if ( unlikely(n < 0) ) {
-                            if ( unlikely(errno != EINTR) ) {
-                                WSS_log_fatal("Unable to write halting message through pipe");
-                            }
-                        }
-                    } while ( unlikely(errno == EINTR) );
+                    } while ( unlikely(n < 0 && errno == EINTR) );
                 }
             }
+            errno = err;
             break;
         case SIGPIPE:
             break;
@@ -313,8 +321,10 @@ static int WSS_server_free(wss_server_t *server) {
  */
 int WSS_server_start(wss_config_t *config) {
     int err;
+    void *status;
     struct rlimit limits;
     struct sigaction sa;
+    wss_state_t starting = STARTING;
     int ret = EXIT_SUCCESS;
     wss_server_t *http = NULL;
     pthread_t cleanup_thread_id;
@@ -371,6 +381,9 @@ int WSS_server_start(wss_config_t *config) {
         return EXIT_FAILURE;
     }
 
+    // Returning from the handler of a fault repeats the fault, which must not go on forever
+    sa.sa_flags = SA_RESETHAND;
+
     if (sigaction (SIGSEGV, &sa, NULL) == -1) {
         WSS_log_fatal("Unable to listen for SIGSEGV signal: %s", strerror(errno));
 
@@ -391,6 +404,8 @@ int WSS_server_start(wss_config_t *config) {
         return EXIT_FAILURE;
     }
 
+    sa.sa_flags = 0;
+
     if (sigaction (SIGHUP, &sa, NULL) == -1) {
         WSS_log_fatal("Unable to listen for SIGHUB signal: %s", strerror(errno));
 
@@ -401,6 +416,8 @@ int WSS_server_start(wss_config_t *config) {
         return EXIT_FAILURE;
     }
 
+    sa.sa_flags = SA_RESETHAND;
+
     if (sigaction (SIGFPE, &sa, NULL) == -1) {
         WSS_log_fatal("Unable to listen for SIGFPE signal: %s", strerror(errno));
 
@@ -411,6 +428,8 @@ int WSS_server_start(wss_config_t *config) {
         return EXIT_FAILURE;
     }
 
+    sa.sa_flags = 0;
+
     if (sigaction (SIGPIPE, &sa, NULL) == -1) {
         WSS_log_fatal("Unable to listen for SIGPIPE signal: %s", strerror(errno));
 
@@ -457,7 +476,8 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_log_trace("Setting to running state");
 
-    WSS_server_set_state(RUNNING);
+    // Unless an interrupt has been received already
+    __atomic_compare_exchange_n(&state.state, &starting, RUNNING, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
 
     WSS_log_trace("Creating HTTP Instance");
 
@@ -490,6 +510,10 @@ int WSS_server_start(wss_config_t *config) {
             return EXIT_FAILURE;
         }
 
+        if ( unlikely(0 != (err = pthread_mutex_init(&https->lock, NULL))) ) {
+            WSS_log_fatal("Failed initializing lock of https instance: %s", strerror(err));
+        }
+
         servers.https = https;
 
         WSS_log_trace("Creating HTTPS Instance");
@@ -541,33 +565,47 @@ int WSS_server_start(wss_config_t *config) {
 
     WSS_log_trace("Joining server threads");
 
-    pthread_join(cleanup_thread_id, (void **) &err);
-    if ( unlikely(WSS_SUCCESS != err) ) {
-        WSS_log_error("Cleanup thread returned with error: %s", strerror(err));
+    pthread_join(cleanup_thread_id, &status);
+    if ( unlikely(WSS_SUCCESS != (uintptr_t)status) ) {
+        WSS_log_error("Cleanup thread returned with error: %lu", (unsigned long)(uintptr_t)status);
         WSS_server_set_state(HALT_ERROR);
     }
 
     WSS_log_trace("Cleanup thread has shutdown");
 
-    pthread_join(http->thread_id, (void **) &err);
-    if ( unlikely(WSS_SUCCESS != err) ) {
-        WSS_log_error("HTTP Server thread returned with error: %s", strerror(err));
+    pthread_join(http->thread_id, &status);
+    if ( unlikely(WSS_SUCCESS != (uintptr_t)status) ) {
+        WSS_log_error("HTTP Server thread returned with error: %lu", (unsigned long)(uintptr_t)status);
         WSS_server_set_state(HALT_ERROR);
     }
 
     WSS_log_trace("HTTP server thread has shutdown");
 
     if (ssl) {
-        pthread_join(https->thread_id, (void **) &err);
-        if ( unlikely(WSS_SUCCESS != err) ) {
-            WSS_log_error("HTTPS Server thread returned with error: %s", strerror(err));
+        pthread_join(https->thread_id, &status);
+        if ( unlikely(WSS_SUCCESS != (uintptr_t)status) ) {
+            WSS_log_error("HTTPS Server thread returned with error: %lu", (unsigned long)(uintptr_t)status);
             WSS_server_set_state(HALT_ERROR);
         }
 
         WSS_log_trace("HTTPS server thread has shutdown");
     }
 
-    pthread_join(http->thread_id, (void **) &err);
+    // The workers of one instance make use of the other instance, hence all of
+    // them must be finished before any memory is freed
+    if ( unlikely(WSS_http_server_stop(http) != WSS_SUCCESS) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+
+    if ( unlikely(ssl && WSS_http_server_stop(https) != WSS_SUCCESS) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+
+    if ( unlikely(WSS_SUCCESS != WSS_session_delete_all()) ) {
+        WSS_server_set_state(HALT_ERROR);
+    }
+
+    WSS_log_trace("Freed all sessions");
 
     if ( unlikely(WSS_poll_close(http) != WSS_SUCCESS) ) {
         WSS_server_set_state(HALT_ERROR);
@@ -591,12 +629,6 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("Freed memory associated with HTTPS server instance");
     }
 
-    if ( unlikely(WSS_SUCCESS != WSS_session_delete_all()) ) {
-        WSS_server_set_state(HALT_ERROR);
-    }
-
-    WSS_log_trace("Freed all sessions");
-
     if ( unlikely(WSS_SUCCESS != WSS_session_destroy_lock()) ) {
         WSS_server_set_state(HALT_ERROR);
     }
-- 
2.43.0


From 6b12098e265bf4d41405fbfaecdb21b3af5f2f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:46 +0000
Subject: [PATCH 15/57] fix: permessage-deflate offers and configuration are
 parsed parameter by parameter

---
 .../permessage-deflate/permessage-deflate.c   | 334 ++++++------------
 1 file changed, 116 insertions(+), 218 deletions(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index 1ab2f60..ae97bd9 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -27,8 +27,9 @@
 #define EXT_SERVER_MAX_WINDOW_BITS     "server_max_window_bits"
 #define EXT_CLIENT_MAX_WINDOW_BITS     "client_max_window_bits"
 
-#define MAX_CHUNK_SIZE UINT_MAX
-#define MIN_CHUNK_SIZE 1
+#define MAX_CHUNK_SIZE (INT_MAX-2)
+// With less space than this zlib repeats the marker of a flush
+#define MIN_CHUNK_SIZE 7
 #define SERVER_MAX_MEM_LEVEL MAX_MEM_LEVEL
 #define SERVER_MIN_MEM_LEVEL 1
 #define SERVER_MAX_WINDOW_BITS 15
@@ -117,9 +118,39 @@ static inline char *trim(char* str)
     return str;
 }
 
-static void parse_param(const char *param, param_t *p) {
-    int bits, j;
-    char *sep, *sepptr;
+/**
+ * Parses the value of a window bits parameter. It is a decimal number without
+ * leading zeros.
+ *
+ * @param   value   [const char *]  "The value or NULL if there is none"
+ * @param   min     [int]           "The smallest value allowed"
+ * @param   max     [int]           "The largest value allowed"
+ * @return          [int]           "The amount of bits or -1 if the value is invalid"
+ */
+static int parse_bits(const char *value, int min, int max) {
+    int bits;
+    char *end;
+
+    if ( NULL == value || value[0] < '1' || value[0] > '9' || strlen(value) > 2 ) {
+        return -1;
+    }
+
+    bits = strtol(value, &end, 10);
+
+    return *end == '\0' && bits >= min && bits <= max ? bits : -1;
+}
+
+/**
+ * Parses the parameters of an offer and chooses those to use.
+ *
+ * @param   param   [const char *]  "The parameters of the offer"
+ * @param   p       [param_t *]     "The parameters chosen"
+ * @return          [bool]          "Whether the offer can be accepted"
+ */
+static bool parse_param(const char *param, param_t *p) {
+    int bits;
+    char *sep, *sepptr, *value;
+    bool cmwb = false, smwb = false, cnct = false, snct = false;
     size_t params_length = strlen(param);
     char buffer[params_length+1];
 
@@ -134,53 +165,52 @@ static void parse_param(const char *param, param_t *p) {
 
     sep = trim(strtok_r(buffer, ";", &sepptr));
     while ( likely(NULL != sep) ) {
-        if ( strncmp(EXT_CLIENT_MAX_WINDOW_BITS, sep, strlen(EXT_CLIENT_MAX_WINDOW_BITS)) == 0) {
-            j = strlen(EXT_CLIENT_MAX_WINDOW_BITS);
-            while ( sep[j] != '=' && sep[j] != '\0' ) {
-                j++;
-            }
-
-            if (sep[j] != '\0') {
-                j++;
-                bits = strtol(sep+j, NULL, 10);
+        if ( NULL != (value = strchr(sep, '=')) ) {
+            *value++ = '\0';
+            sep = trim(sep);
+            value = trim(value);
+        }
 
-                p->client_max_window_bits = MIN(bits, CLIENT_MAX_WINDOW_BITS);
-            } else {
-                // Default
-                p->client_max_window_bits = default_client_window_bits;
+        if ( strcasecmp(EXT_CLIENT_MAX_WINDOW_BITS, sep) == 0 && ! cmwb ) {
+            cmwb = true;
+            // Default
+            bits = CLIENT_MAX_WINDOW_BITS;
+            if ( NULL != value && (bits = parse_bits(value, CLIENT_MIN_WINDOW_BITS, CLIENT_MAX_WINDOW_BITS)) < 0 ) {
+                return false;
             }
-        } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, sep, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0) {
-            j = strlen(EXT_SERVER_MAX_WINDOW_BITS);
-            while ( sep[j] != '=' ) {
-                j++;
-            }
-
-            j++;
-            bits = strtol(sep+j, NULL, 10);
 
-            // Is really 8, but zlib does not support value 8 so increase to 9
-            if (bits == SERVER_MIN_WINDOW_BITS) {
-                bits++;
+            p->client_max_window_bits = MIN(bits, default_client_window_bits);
+        } else if ( strcasecmp(EXT_SERVER_MAX_WINDOW_BITS, sep) == 0 && ! smwb ) {
+            smwb = true;
+            // zlib does not support the value 8 when compressing, hence such
+            // an offer cannot be accepted
+            if ( (bits = parse_bits(value, SERVER_MIN_WINDOW_BITS+1, SERVER_MAX_WINDOW_BITS)) < 0 ) {
+                return false;
             }
 
-            p->server_max_window_bits = MIN(bits, SERVER_MAX_WINDOW_BITS);
-        } else if ( strncmp(EXT_CLIENT_NO_CONTEXT_TAKEOVER, sep, strlen(EXT_CLIENT_NO_CONTEXT_TAKEOVER)) == 0) {
+            p->server_max_window_bits = MIN(bits, default_server_window_bits);
+        } else if ( strcasecmp(EXT_CLIENT_NO_CONTEXT_TAKEOVER, sep) == 0 && NULL == value && ! cnct ) {
+            cnct = true;
             p->client_no_context_takeover = true;
-        } else if ( strncmp(EXT_SERVER_NO_CONTEXT_TAKEOVER, sep, strlen(EXT_SERVER_NO_CONTEXT_TAKEOVER)) == 0) {
+        } else if ( strcasecmp(EXT_SERVER_NO_CONTEXT_TAKEOVER, sep) == 0 && NULL == value && ! snct ) {
+            snct = true;
             p->server_no_context_takeover = true;
+        } else if ( sep[0] != '\0' ) {
+            // Unknown, repeated or with a value it does not take
+            return false;
         }
 
         sep = trim(strtok_r(NULL, ";", &sepptr));
     }
+
+    return true;
 }
 
-static char * negotiate(char *param, wss_comp_t *comp) {
+static char * negotiate(wss_comp_t *comp) {
     size_t snct_length = 0, cnct_length = 0, cmwb_length = 0, smwb_length = 0, accepted_length = 0, written = 0;
     char *accepted = NULL;
     param_t *p = &comp->params;
 
-    parse_param(param, p);
-
     if (p->server_no_context_takeover) {
         // server_no_contect_takeover
         snct_length = strlen(EXT_SERVER_NO_CONTEXT_TAKEOVER)+1;
@@ -273,6 +303,29 @@ static bool init_comp(wss_comp_t *comp) {
     return true;
 }
 
+/**
+ * Finds the value of a setting in the configuration of the extension. A value
+ * that is out of range is ignored.
+ *
+ * @param   config  [const char *]  "The configuration of the extension"
+ * @param   name    [const char *]  "The name of the setting"
+ * @param   min     [long int]      "The smallest value allowed"
+ * @param   max     [long int]      "The largest value allowed"
+ * @param   setting [int *]         "The setting"
+ * @return          [void]
+ */
+static void configure(const char *config, const char *name, long int min, long int max, int *setting) {
+    long int val;
+
+    while ( NULL != (config = strstr(config, name)) ) {
+        config = strchr(config, '=')+1;
+        val = strtol(config, NULL, 10);
+        if (min <= val && val <= max) {
+            *setting = val;
+        }
+    }
+}
+
 /**
  * Event called when extension is initialized.
  *
@@ -281,102 +334,38 @@ static bool init_comp(wss_comp_t *comp) {
  */
 void onInit(char *config) {
     int err;
-    long int val;
-    size_t i, j;
     regex_t re;
-    size_t nmatch = 8;
-    regmatch_t matches[nmatch];
     const char *reg_str = "^(\\s*((server_no_context_takeover)|(server_max_window_bits\\s*=\\s*[0-9]+)|(client_max_window_bits\\s*=\\s*[0-9]+)|(memory_level\\s*=\\s*[0-9]+)|(chunk_size\\s*=\\s*[0-9]+))\\s*;?\\s*)*$";
 
+    pthread_mutex_init(&lock, NULL);
+
     if ( NULL == config ) {
         return;
     }
-    size_t params_length = strlen(config);
-    char buffer[params_length+1];
 
-    if ( unlikely((err = regcomp(&re, reg_str, REG_EXTENDED)) != 0) ) {
+    if ( unlikely((err = regcomp(&re, reg_str, REG_EXTENDED|REG_NOSUB)) != 0) ) {
         return;
     } 
 
-    memset(buffer, '\0', params_length+1);
-    memcpy(buffer, config, params_length);
-
-    err = regexec(&re, buffer, nmatch, matches, 0);
+    err = regexec(&re, config, 0, NULL, 0);
+    regfree(&re);
     if ( unlikely(err != 0) ) {
         return;
     }
 
-    for (i = 3; likely(i < nmatch); i++) {
-        if (matches[i].rm_so == -1) {
-            continue;
-        }
-
-        buffer[matches[i].rm_eo] = '\0';
-
-        if ( strncmp(EXT_CHUNK_SIZE, buffer+matches[i].rm_so, strlen(EXT_CHUNK_SIZE)) == 0) {
-            j = matches[i].rm_so;
-            while (buffer[j] != '=') {
-                j++;
-            }
-
-            j++;
-            val = strtol(buffer+j, NULL, 10);
-            if (val < MIN_CHUNK_SIZE || MAX_CHUNK_SIZE < val) {
-                continue;
-            }
-            default_chunk_size = val;
-        } else 
-        if ( strncmp(EXT_MEMORY_LEVEL, buffer+matches[i].rm_so, strlen(EXT_MEMORY_LEVEL)) == 0) {
-            j = matches[i].rm_so;
-            while (buffer[j] != '=') {
-                j++;
-            }
+    configure(config, EXT_CHUNK_SIZE, MIN_CHUNK_SIZE, MAX_CHUNK_SIZE, &default_chunk_size);
+    configure(config, EXT_MEMORY_LEVEL, SERVER_MIN_MEM_LEVEL, SERVER_MAX_MEM_LEVEL, &default_memory_level);
+    configure(config, EXT_SERVER_MAX_WINDOW_BITS, SERVER_MIN_WINDOW_BITS, SERVER_MAX_WINDOW_BITS, &default_server_window_bits);
+    configure(config, EXT_CLIENT_MAX_WINDOW_BITS, CLIENT_MIN_WINDOW_BITS, CLIENT_MAX_WINDOW_BITS, &default_client_window_bits);
 
-            j++;
-            val = strtol(buffer+j, NULL, 10);
-            if (val < SERVER_MIN_MEM_LEVEL || SERVER_MAX_MEM_LEVEL < val) {
-                continue;
-            }
-            default_memory_level = val;
-        } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0) {
-            j = matches[i].rm_so;
-            while (buffer[j] != '=') {
-                j++;
-            }
-
-            j++;
-            val = strtol(buffer+j, NULL, 10);
-            if (val < SERVER_MIN_WINDOW_BITS || SERVER_MAX_WINDOW_BITS < val) {
-                continue;
-            }
-
-            // Is really 8, but zlib does not support value 8 so increase to 9
-            if (val == SERVER_MIN_WINDOW_BITS) {
-                val++;
-            }
-
-            default_server_window_bits = val;
-        } else if ( strncmp(EXT_CLIENT_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_CLIENT_MAX_WINDOW_BITS)) == 0) {
-            j = matches[i].rm_so;
-            while (buffer[j] != '=') {
-                j++;
-            }
-
-            j++;
-            val = strtol(buffer+j, NULL, 10);
-            if (val < CLIENT_MIN_WINDOW_BITS || CLIENT_MAX_WINDOW_BITS < val) {
-                continue;
-            }
-
-            default_client_window_bits = val;
-        } else if ( strncmp(EXT_SERVER_NO_CONTEXT_TAKEOVER, buffer+matches[i].rm_so, strlen(EXT_SERVER_NO_CONTEXT_TAKEOVER)) == 0) {
-            default_server_no_context_takeover = true;
-        }
+    // Is really 8, but zlib does not support value 8 so increase to 9
+    if (default_server_window_bits == SERVER_MIN_WINDOW_BITS) {
+        default_server_window_bits++;
     }
 
-    regfree(&re);
-
-    pthread_mutex_init(&lock, NULL);
+    if ( NULL != strstr(config, EXT_SERVER_NO_CONTEXT_TAKEOVER) ) {
+        default_server_no_context_takeover = true;
+    }
 }
 
 /**
@@ -404,129 +393,38 @@ void setAllocators(WSS_malloc_t extmalloc, WSS_realloc_t extrealloc, WSS_free_t
  * @return 	            [void]
  */
 void onOpen(int fd, char *param, char **accepted, bool *valid) {
-    int err, j;
-    long int val;
-    size_t i;
-    regex_t re;
-    size_t nmatch = 7;
-    regmatch_t matches[nmatch];
     wss_comp_t *comp;
-    const char *reg_str = "^(\\s*((server_no_context_takeover)|(client_no_context_takeover)|(server_max_window_bits\\s*=\\s*[0-9]+)|(client_max_window_bits(\\s*=\\s*[0-9]+)?))*\\s*;?\\s*)*$";
-
-    if ( NULL == param ) {
-        if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
-            *valid = false;
-            return;
-        }
-
-        if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
-            *valid = false;
-            return;
-        }
 
-        comp->fd = fd;
-        comp->params.client_max_window_bits = default_client_window_bits;
-        comp->params.server_max_window_bits = default_server_window_bits;
-        comp->params.client_no_context_takeover = default_client_no_context_takeover;
-        comp->params.server_no_context_takeover = default_server_no_context_takeover;
+    *valid = false;
 
-        if ( unlikely(! init_comp(comp)) ) {
-            allocs.free(comp);
-            *valid = false;
-            return;
-        }
-
-        HASH_ADD_INT(compressors, fd, comp);
-
-        pthread_mutex_unlock(&lock);
-
-        *valid = true;
-        return;
-    }
-    size_t params_length = strlen(param);
-    char buffer[params_length+1];
-
-    if ( unlikely((err = regcomp(&re, reg_str, REG_EXTENDED)) != 0) ) {
-        *valid = false;
-        return;
-    } 
-
-    memset(buffer, '\0', params_length+1);
-    memcpy(buffer, param, params_length);
-
-    err = regexec(&re, buffer, nmatch, matches, 0);
-    if ( unlikely(err != 0) ) {
-        *valid = false;
+    if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
         return;
     }
+    memset(comp, '\0', sizeof(wss_comp_t));
+    comp->fd = fd;
 
-    for (i = 3; likely(i < nmatch-1); i++) {
-        if (matches[i].rm_so == -1) {
-            continue;
-        }
-
-        buffer[matches[i].rm_eo] = '\0';
-
-        if ( strncmp(EXT_CLIENT_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_CLIENT_MAX_WINDOW_BITS)) == 0 ) {
-            j = matches[i].rm_so+strlen(EXT_CLIENT_MAX_WINDOW_BITS);
-            while (buffer[j] != '=' && buffer[j] != '\0') {
-                j++;
-            }
-
-            if (buffer[j] != '\0') {
-                j++;
-                val = strtol(buffer+j, NULL, 10);
-                if ( val < CLIENT_MIN_WINDOW_BITS || CLIENT_MAX_WINDOW_BITS < val) {
-                    *valid = false;
-                    return;
-                }
-            }
-        } else if ( strncmp(EXT_SERVER_MAX_WINDOW_BITS, buffer+matches[i].rm_so, strlen(EXT_SERVER_MAX_WINDOW_BITS)) == 0 ) {
-            j = matches[i].rm_so+strlen(EXT_SERVER_MAX_WINDOW_BITS);
-            while (buffer[j] != '=') {
-                j++;
-            }
-
-            j++;
-            val = strtol(buffer+j, NULL, 10);
-            if ( val < SERVER_MIN_WINDOW_BITS || SERVER_MAX_WINDOW_BITS < val) {
-                *valid = false;
-                return;
-            }
-        }
-    }
-
-    regfree(&re);
-
-    if ( unlikely(pthread_mutex_lock(&lock) != 0) ) {
-        *valid = false;
+    if ( ! parse_param(NULL == param ? "" : param, &comp->params) ) {
+        allocs.free(comp);
         return;
     }
 
-    if ( unlikely(NULL == (comp = allocs.malloc(sizeof(wss_comp_t)))) ) {
-        *valid = false;
+    if ( unlikely(! init_comp(comp)) ) {
+        allocs.free(comp);
         return;
     }
 
-    comp->fd = fd;
-    comp->params.client_max_window_bits = default_client_window_bits;
-    comp->params.server_max_window_bits = default_server_window_bits;
-    comp->params.client_no_context_takeover = default_client_no_context_takeover;
-    comp->params.server_no_context_takeover = default_server_no_context_takeover;
-
-    *accepted = negotiate(param, comp);
-
-    if ( unlikely(! init_comp(comp)) ) {
+    if ( unlikely(NULL == (*accepted = negotiate(comp)) || pthread_mutex_lock(&lock) != 0) ) {
+        (void)inflateEnd(&comp->decompressor);
+        (void)deflateEnd(&comp->compressor);
         allocs.free(comp);
-        *valid = false;
         return;
     }
 
     HASH_ADD_INT(compressors, fd, comp);
 
-    *valid = true;
-
     pthread_mutex_unlock(&lock);
+
+    *valid = true;
 }
 
 /**
-- 
2.43.0


From 5b26131ee405149175ca06916f7c92628608601b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 16/57] fix: dates of responses shared a buffer between the
 threads of the pool

---
 src/worker.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index c9c05c0..5b216ca 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -203,7 +203,7 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
     strncpy(savedlocale, setlocale(LC_ALL, NULL), 255);
     setlocale(LC_ALL, "C");
     now = time(0);
-    tm = *gmtime(&now);
+    gmtime_r(&now, &tm);
     memset(date, '\0', GMT_FORMAT_LENGTH);
     memset(modified, '\0', GMT_FORMAT_LENGTH);
     strftime(date, sizeof date, "%a, %d %b %Y %H:%M:%S %Z", &tm);
@@ -223,7 +223,7 @@ static wss_message_t *favicon_response(wss_header_t *header, enum HttpStatus_Cod
         // Get last modified
         stat(config->favicon, &filestat);
         setlocale(LC_ALL, "C");
-        tm = *gmtime(&filestat.st_mtime);
+        gmtime_r(&filestat.st_mtime, &tm);
         strftime(modified, sizeof modified, "%a, %d %b %Y %H:%M:%S %Z", &tm);
         setlocale(LC_ALL, savedlocale);
 
@@ -356,7 +356,7 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
     strncpy(savedlocale, setlocale(LC_ALL, NULL), 255);
     setlocale(LC_ALL, "C");
     now = time(0);
-    tm = *gmtime(&now);
+    gmtime_r(&now, &tm);
     strftime(date, sizeof date, "%a, %d %b %Y %H:%M:%S %Z", &tm);
     setlocale(LC_ALL, savedlocale);
 
-- 
2.43.0


From d486cd6c053d10e28b2d6045a75c58c6e56c4996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 17/57] fix: loading and freeing the configuration touched
 memory that was never or no longer its own

---
 src/config.c | 37 +++++++++++++++++++++++++------------
 src/main.c   |  2 ++
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/config.c b/src/config.c
index d7d3938..b4a21bb 100644
--- a/src/config.c
+++ b/src/config.c
@@ -102,7 +102,7 @@ static void WSS_config_release (void * ptr, void * user_data)
  */
 wss_error_t WSS_config_load(wss_config_t *config, char *path) {
     char error[1024];
-    unsigned int i, j, length;
+    unsigned int i, j, length, hosts_length = 0;
     char *name;
     json_value *value, *val, *temp;
     settings = (json_settings){
@@ -113,7 +113,7 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
 
     config->length = strload(path, &config->string);
     if ( unlikely(NULL == config->string) ) {
-        WSS_log_error("Unable to load JSON file: %s", error);
+        WSS_log_error("Unable to load JSON file: %s", path);
         WSS_config_free(config);
         return WSS_CONFIG_LOAD_ERROR;
     }
@@ -134,9 +134,10 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
+                        WSS_free((void **) &config->hosts);
+                        hosts_length = 0;
+
                         if (length == 0) {
-                            config->hosts_length = length;
-                            config->hosts = NULL;
                             continue;
                         }
 
@@ -156,15 +157,16 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                                 return WSS_CONFIG_INVALID_HOST;
                             }
                         }
-                        config->hosts_length = length;
+                        hosts_length = length;
                     }
                 } else if ( strncmp(name, "origins", 7) == 0 ) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
+                        WSS_free((void **) &config->origins);
+                        config->origins_length = 0;
+
                         if (length == 0) {
-                            config->origins_length = length;
-                            config->origins = NULL;
                             continue;
                         }
 
@@ -190,9 +192,10 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
+                        WSS_free((void **) &config->paths);
+                        config->paths_length = 0;
+
                         if (length == 0) {
-                            config->paths_length = length;
-                            config->paths = NULL;
                             continue;
                         }
 
@@ -218,9 +221,10 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                     if ( likely(value->type == json_array) ) {
                         length = value->u.array.length;
 
+                        WSS_free((void **) &config->queries);
+                        config->queries_length = 0;
+
                         if (length == 0) {
-                            config->queries_length = length;
-                            config->queries = NULL;
                             continue;
                         }
 
@@ -247,6 +251,9 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         if ( val->type == json_array) {
                             length = val->u.array.length;
 
+                            WSS_free((void **) &config->subprotocols);
+                            WSS_free((void **) &config->subprotocols_config);
+
                             if (length > 0) {
                                 if ( unlikely(NULL == (config->subprotocols = WSS_calloc(length, sizeof(char *)))) ) {
                                     WSS_log_error("Unable to calloc subprotocols");
@@ -301,6 +308,9 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
                         if ( likely(val->type == json_array) ) {
                             length = val->u.array.length;
 
+                            WSS_free((void **) &config->extensions);
+                            WSS_free((void **) &config->extensions_config);
+
                             if (length > 0) {
                                 if ( unlikely(NULL == (config->extensions = WSS_calloc(length, sizeof(char *)))) ) {
                                     WSS_log_error("Unable to calloc extensions");
@@ -581,6 +591,8 @@ wss_error_t WSS_config_load(wss_config_t *config, char *path) {
         return WSS_CONFIG_NO_PORT_ERROR;
     }
 
+    // Only from here on memory is allocated for the hosts
+    config->hosts_length = hosts_length;
     if ( likely(config->hosts_length > 0) ) {
         return config_add_port_to_hosts(config);
     }
@@ -607,7 +619,7 @@ wss_error_t WSS_config_free(wss_config_t *config) {
         }
 
         if ( likely(amount > 1) ) {
-            if ( NULL != config->hosts ) {
+            if ( NULL != config->hosts && config->hosts_length > 0 ) {
                 WSS_free((void **)&config->hosts[(config->hosts_length/amount)*(amount-1)]);
             }
         }
@@ -620,6 +632,7 @@ wss_error_t WSS_config_free(wss_config_t *config) {
         WSS_free((void **) &config->string);
         WSS_free((void **) &config->hosts);
         WSS_free((void **) &config->origins);
+        WSS_free((void **) &config->paths);
         WSS_free((void **) &config->queries);
         WSS_free((void **) &config->extensions);
         WSS_free((void **) &config->subprotocols);
diff --git a/src/main.c b/src/main.c
index 59effd9..51c3a78 100644
--- a/src/main.c
+++ b/src/main.c
@@ -56,8 +56,10 @@ int main(int argc, char *argv[]) {
     // Default values
     config.subprotocols         = NULL;
     config.subprotocols_length  = 0;
+    config.subprotocols_config  = NULL;
     config.extensions           = NULL;
     config.extensions_length    = 0;
+    config.extensions_config    = NULL;
     config.favicon              = NULL;
     config.origins              = NULL;
     config.origins_length       = 0;
-- 
2.43.0


From e60d215328d71689c0891aee32cf694bccc9bf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:09 +0000
Subject: [PATCH 18/57] fix: a Sec-WebSocket-Key followed by anything else was
 accepted, and copied to the stack whatever its length

---
 include/header.h | 1 +
 src/header.c     | 3 +--
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/header.h b/include/header.h
index 0abb787..ab0a215 100644
--- a/include/header.h
+++ b/include/header.h
@@ -18,6 +18,7 @@
 #define COOKIE_STRING "Cookie"
 #define HOST_STRING "Host"
 #define SEC_WEBSOCKET_KEY_LENGTH 16
+#define SEC_WEBSOCKET_KEY_ENCODED_LENGTH 24
 #define SEC_WEBSOCKET_VERSION "Sec-WebSocket-Version"
 #define SEC_WEBSOCKET_PROTOCOL "Sec-WebSocket-Protocol"
 #define SEC_WEBSOCKET_KEY "Sec-WebSocket-Key"
diff --git a/src/header.c b/src/header.c
index 1395581..3d3eb48 100644
--- a/src/header.c
+++ b/src/header.c
@@ -590,9 +590,8 @@ enum HttpStatus_Code WSS_upgrade_header(wss_header_t *header, wss_config_t * con
 
     WSS_log_trace("Validating websocket key");
 
-    if ( unlikely(NULL == header->ws_key) ) {
+    if ( unlikely(NULL == header->ws_key || strlen(header->ws_key) != SEC_WEBSOCKET_KEY_ENCODED_LENGTH) ) {
         WSS_log_trace("Invalid websocket key");
-        WSS_free((void **) &key);
         return HttpStatus_UpgradeRequired;
     }
 
-- 
2.43.0


From 0d6f96daee978660f3446459f66a366d83fba8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:35 +0000
Subject: [PATCH 19/57] fix: a failed TLS write after the client ended its
 stream closes the session instead of looping

---
 src/ssl.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ssl.c b/src/ssl.c
index 66041e4..73e4d8a 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -453,7 +453,9 @@ bool WSS_ssl_write_partial(wss_session_t *session, unsigned int message_index, w
         return false;
     }
 
-    if ( unlikely(err != SSL_ERROR_NONE && err != SSL_ERROR_ZERO_RETURN) ) {
+    // A write that failed after the client ended its TLS stream is reported as
+    // SSL_ERROR_ZERO_RETURN, it will never succeed
+    if ( unlikely(err != SSL_ERROR_NONE) ) {
         char msg[1024];
 #if defined(USE_OPENSSL)
         while ( (err = ERR_get_error()) != 0 ) {
-- 
2.43.0


From 192ebd1fd278d4233610fb96da4a4e2e35f2fbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:40 +0000
Subject: [PATCH 20/57] fix: read a bounded amount per event, so a client that
 never pauses cannot capture a worker or memory

---
 include/ssl.h |  9 +++++++++
 src/ssl.c     | 17 +++++++++++++++++
 src/worker.c  |  9 ++++++++-
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/include/ssl.h b/include/ssl.h
index d49128b..2dc8016 100644
--- a/include/ssl.h
+++ b/include/ssl.h
@@ -63,6 +63,15 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session);
  */
 int WSS_ssl_read(wss_server_t *server, wss_session_t *session, char *buffer);
 
+/**
+ * Function that tells whether the TLS layer holds bytes, sent by the client, that
+ * can be read without anything being received from the kernel.
+ *
+ * @param   session     [wss_session_t *]   "The connecting client session"
+ * @return              [bool]
+ */
+bool WSS_ssl_pending(wss_session_t *session);
+
 /**
  * Function that performs a ssl write to the connecting client.
  *
diff --git a/src/ssl.c b/src/ssl.c
index 73e4d8a..8099405 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -405,6 +405,23 @@ int WSS_ssl_read(wss_server_t *server, wss_session_t *session, char *buffer) {
 #endif
 }
 
+/**
+ * Function that tells whether the TLS layer holds bytes, sent by the client, that
+ * can be read without anything being received from the kernel.
+ *
+ * @param   session     [wss_session_t *]   "The connecting client session"
+ * @return              [bool]
+ */
+bool WSS_ssl_pending(wss_session_t *session) {
+#if defined(USE_OPENSSL)
+    return SSL_pending(session->ssl) > 0;
+#elif defined(USE_WOLFSSL)
+    return wolfSSL_pending(session->ssl) > 0;
+#else
+    return false;
+#endif
+}
+
 /**
  * Function that performs a ssl write to the connecting client.
  *
diff --git a/src/worker.c b/src/worker.c
index 5b216ca..4827ced 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1043,6 +1043,10 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
     bool fragmented = false;
     bool invalid;
     char *buffer;
+    size_t total = 0;
+    // What is read in one go, such that a client that keeps sending neither keeps
+    // the worker to itself nor makes the payload grow without bound
+    size_t limit = MAX(server->config->size_buffer, server->config->size_frame);
 
     // If no initial header has been seen for the session, the websocket
     // handshake is yet to be made.
@@ -1135,10 +1139,13 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
                 memcpy(payload+payload_length, buffer, n);
                 payload_length += n;
+                total += n;
                 memset(buffer, '\0', server->config->size_buffer);
 
         }
-    } while ( likely(n != 0) );
+        // The rest is read at the next event, which the poll instance cannot give
+        // for bytes that were already taken from the kernel by the TLS layer
+    } while ( likely(n != 0) && likely(total < limit || (NULL != server->ssl_ctx && WSS_ssl_pending(session))) );
 
     // Release memory used for buffer
     WSS_free((void **) &buffer);
-- 
2.43.0


From 0f0852fa473a55fbc4743fab6ff61827da627d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:41 +0000
Subject: [PATCH 21/57] fix: retry an interrupted read instead of failing the
 connection

---
 src/worker.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 4827ced..ab049c6 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -681,18 +681,16 @@ static int read_internal(wss_server_t *server, wss_session_t *session, char *buf
     } else {
         do {
             n = read(session->fd, buffer, server->config->size_buffer);
-            if (n == -1) {
-                if ( unlikely(errno == EINTR) ) {
-                    errno = 0;
-                    continue;
-                } else if ( unlikely(errno != EAGAIN && errno != EWOULDBLOCK) ) {
-                    WSS_log_error("Read failed: %s", strerror(errno));
-                    close_session(session);
-                } else {
-                    n = 0;
-                }
+        } while ( unlikely(n == -1 && errno == EINTR) );
+
+        if (n == -1) {
+            if ( unlikely(errno != EAGAIN && errno != EWOULDBLOCK) ) {
+                WSS_log_error("Read failed: %s", strerror(errno));
+                close_session(session);
+            } else {
+                n = 0;
             }
-        } while ( unlikely(0) );
+        }
     }
 
     return n;
-- 
2.43.0


From 1114477c7d494eed2e2e684cd98e7e70d981bfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:56 +0000
Subject: [PATCH 22/57] fix: only retry epoll_ctl when it was interrupted

---
 src/event.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index a5dcc55..fd8a278 100644
--- a/src/event.c
+++ b/src/event.c
@@ -535,7 +535,7 @@ static inline wss_error_t WSS_poll_add(int poll_fd, int fd, uint32_t events) {
                 ret = epoll_ctl(poll_fd, EPOLL_CTL_ADD, fd, &event);
             }
         }
-    } while ( unlikely(errno == EINTR) );
+    } while ( unlikely(ret < 0 && errno == EINTR) );
 
     if ( unlikely(ret < 0) ) {
         WSS_log_error("Failed to (re)arm file descriptor to epoll: %s", strerror(errno));
@@ -702,7 +702,7 @@ wss_error_t WSS_poll_remove(wss_server_t *server, int fd) {
         event.data.fd = fd;
 
         ret = epoll_ctl(server->poll_fd, EPOLL_CTL_DEL, fd, &event);
-    } while ( unlikely(errno == EINTR) );
+    } while ( unlikely(ret < 0 && errno == EINTR) );
 
     if ( unlikely(ret < 0) ) {
         WSS_log_error("Failed to remove session %d from epoll: %s", fd, strerror(errno));
-- 
2.43.0


From 8126237e8a78650c5b9e58f7eb012c729a23e6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 23/57] fix: rpmalloc released a span while another thread was
 still adding its block to it

---
 src/rpmalloc.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index cf7310b..373d0ea 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -234,7 +234,7 @@ static FORCEINLINE void*   atomic_load_ptr(atomicptr_t* src) { return atomic_loa
 static FORCEINLINE void    atomic_store_ptr(atomicptr_t* dst, void* val) { atomic_store_explicit(dst, val, memory_order_relaxed); }
 static FORCEINLINE void    atomic_store_ptr_release(atomicptr_t* dst, void* val) { atomic_store_explicit(dst, val, memory_order_release); }
 static FORCEINLINE void*   atomic_exchange_ptr_acquire(atomicptr_t* dst, void* val) { return atomic_exchange_explicit(dst, val, memory_order_acquire); }
-static FORCEINLINE int     atomic_cas_ptr(atomicptr_t* dst, void* val, void* ref) { return atomic_compare_exchange_weak_explicit(dst, &ref, val, memory_order_relaxed, memory_order_relaxed); }
+static FORCEINLINE int     atomic_cas_ptr(atomicptr_t* dst, void* val, void* ref) { return atomic_compare_exchange_weak_explicit(dst, &ref, val, memory_order_acq_rel, memory_order_relaxed); }
 
 #define EXPECTED(x) __builtin_expect((x), 1)
 #define UNEXPECTED(x) __builtin_expect((x), 0)
@@ -431,7 +431,7 @@ struct span_t {
 	//! Deferred free list
 	atomicptr_t free_list_deferred;
 	//! Size of deferred free list, or list of spans when part of a cache list
-	uint32_t    list_size;
+	atomic32_t  list_size;
 	//! Size of a block
 	uint32_t    block_size;
 	//! Flags and counters
@@ -1090,7 +1090,7 @@ _rpmalloc_span_initialize_new(heap_t* heap, span_t* span, uint32_t class_idx) {
 	span->block_size = size_class->block_size;
 	span->block_count = size_class->block_count;
 	span->free_list = 0;
-	span->list_size = 0;
+	atomic_store32(&span->list_size, 0);
 	atomic_store_ptr_release(&span->free_list_deferred, 0);
 
 	//Setup free list. Only initialize one system page worth of free blocks in list
@@ -1118,8 +1118,8 @@ _rpmalloc_span_extract_free_list_deferred(span_t* span) {
 	do {
 		span->free_list = atomic_exchange_ptr_acquire(&span->free_list_deferred, INVALID_POINTER);
 	} while (span->free_list == INVALID_POINTER);
-	span->used_count -= span->list_size;
-	span->list_size = 0;
+	span->used_count -= (uint32_t)atomic_load32(&span->list_size);
+	atomic_store32(&span->list_size, 0);
 	atomic_store_ptr_release(&span->free_list_deferred, 0);
 }
 
@@ -1156,8 +1156,8 @@ _rpmalloc_span_finalize(heap_t* heap, size_t iclass, span_t* span, span_t** list
 		span->used_count -= free_count;
 	}
 	//If this assert triggers you have memory leaks
-	assert(span->list_size == span->used_count);
-	if (span->list_size == span->used_count) {
+	assert((uint32_t)atomic_load32(&span->list_size) == span->used_count);
+	if ((uint32_t)atomic_load32(&span->list_size) == span->used_count) {
 		_rpmalloc_stat_dec(&heap->span_use[0].current);
 		_rpmalloc_stat_dec(&heap->size_class_use[iclass].spans_current);
 		// This function only used for spans in double linked lists
@@ -2027,7 +2027,16 @@ _rpmalloc_deallocate_direct_small_or_medium(span_t* span, void* block) {
 	--span->used_count;
 	*((void**)block) = span->free_list;
 	span->free_list = block;
-	if (UNEXPECTED(span->used_count == span->list_size)) {
+	if (UNEXPECTED(span->used_count == (uint32_t)atomic_load32(&span->list_size))) {
+		if (span->used_count) {
+			// The remaining blocks were released by other threads, the last of which counts its block before
+			// it stores the deferred list. Wait until it has, as it must not touch the span once it is reused
+			void* free_list;
+			do {
+				free_list = atomic_exchange_ptr_acquire(&span->free_list_deferred, INVALID_POINTER);
+			} while (free_list == INVALID_POINTER);
+			atomic_store_ptr_release(&span->free_list_deferred, free_list);
+		}
 		_rpmalloc_span_double_link_list_remove(&heap->size_class[span->size_class].partial_span, span);
 		_rpmalloc_span_release_to_cache(heap, span);
 	}
@@ -2053,7 +2062,7 @@ _rpmalloc_deallocate_defer_small_or_medium(span_t* span, void* block) {
 		free_list = atomic_exchange_ptr_acquire(&span->free_list_deferred, INVALID_POINTER);
 	} while (free_list == INVALID_POINTER);
 	*((void**)block) = free_list;
-	uint32_t free_count = ++span->list_size;
+	uint32_t free_count = (uint32_t)atomic_incr32(&span->list_size);
 	atomic_store_ptr_release(&span->free_list_deferred, block);
 	if (free_count == span->block_count) {
 		// Span was completely freed by this block. Due to the INVALID_POINTER spin lock
@@ -2753,7 +2762,7 @@ rpmalloc_thread_statistics(rpmalloc_thread_statistics_t* stats) {
 		size_class_t* size_class = _memory_size_class + iclass;
 		span_t* span = heap->size_class[iclass].partial_span;
 		while (span) {
-			size_t free_count = span->list_size;
+			size_t free_count = (size_t)atomic_load32(&span->list_size);
 			size_t block_count = size_class->block_count;
 			if (span->free_list_limit < block_count)
 				block_count = span->free_list_limit;
-- 
2.43.0


From ae73064f3b748b3e3354807fa2c7741d040eb610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 24/57] fix: with poll the workers changed the descriptors
 while the server thread polled them

---
 src/event.c | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/event.c b/src/event.c
index fd8a278..5072015 100644
--- a/src/event.c
+++ b/src/event.c
@@ -876,7 +876,9 @@ wss_error_t WSS_poll_init(wss_server_t *server) {
 
     WSS_log_trace("Initializing poll events");
 
-    if ( unlikely(NULL == (events = WSS_calloc(MAXEVENTS, sizeof(event)))) ) {
+    // The second half is the copy that the server thread polls, while the first
+    // half is changed by the workers as well
+    if ( unlikely(NULL == (events = WSS_calloc(2*(size_t)MAXEVENTS, sizeof(event)))) ) {
         WSS_log_fatal("Unable to calloc server poll events");
         return WSS_MEMORY_ERROR;
     }
@@ -956,8 +958,10 @@ wss_error_t WSS_poll_set_write(wss_server_t *server, int fd) {
 
     WSS_server_set_max_fd(server, fd);
 
+    pthread_mutex_lock(&server->lock);
     events[fd].fd = fd;
     events[fd].events = POLLOUT;
+    pthread_mutex_unlock(&server->lock);
 
     if (fd != server->rearm_pipefd[0] && fd != close_pipefd[0] && fd != server->fd) {
         rearm(server);
@@ -985,8 +989,10 @@ wss_error_t WSS_poll_set_read(wss_server_t *server, int fd) {
 
     WSS_server_set_max_fd(server, fd);
 
+    pthread_mutex_lock(&server->lock);
     events[fd].fd = fd;
     events[fd].events = POLLPRI | POLLIN | POLLRDHUP;
+    pthread_mutex_unlock(&server->lock);
 
     if (fd != server->rearm_pipefd[0] && fd != close_pipefd[0] && fd != server->fd) {
         rearm(server);
@@ -1011,8 +1017,10 @@ wss_error_t WSS_poll_remove(wss_server_t *server, int fd) {
 
     WSS_log_trace("Removing session %d from poll", fd);
 
+    pthread_mutex_lock(&server->lock);
     events[fd].fd = -1;
     events[fd].events = 0;
+    pthread_mutex_unlock(&server->lock);
 
     if (fd != server->rearm_pipefd[0] && fd != close_pipefd[0] && fd != server->fd) {
         rearm(server);
@@ -1032,8 +1040,13 @@ wss_error_t WSS_poll_delegate(wss_server_t *server) {
     int start = 0;
     int fd;
     wss_error_t err;
-    int end = server->max_fd;
-    struct pollfd *events = (struct pollfd *) server->events;
+    int end;
+    struct pollfd *events = (struct pollfd *) server->events + MAXEVENTS;
+
+    pthread_mutex_lock(&server->lock);
+    end = server->max_fd;
+    memcpy(events, server->events, (end+1)*sizeof(struct pollfd));
+    pthread_mutex_unlock(&server->lock);
 
     while ( likely(start < end && events[start].fd == -1) ) {
         ++start;
-- 
2.43.0


From d54f469f7d7767d91aebdff99c2800eed79ae40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 25/57] fix: the TLS state of a new session was created while
 the timeout thread looked at it

---
 src/server.c |  2 +-
 src/worker.c | 12 ++++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/server.c b/src/server.c
index 7a7ddeb..5f06dcf 100644
--- a/src/server.c
+++ b/src/server.c
@@ -53,11 +53,11 @@ static void cleanup_session(wss_session_t *session) {
     int fd = session->fd;
     wss_server_t *server = servers.http;
 
+    pthread_mutex_lock(&session->lock_io);
     if (NULL != session->ssl) {
         server = servers.https;
     }
 
-    pthread_mutex_lock(&session->lock_io);
     handshaked = session->handshaked;
     closing = session->closing;
     ms = (((now.tv_sec - session->alive.tv_sec)*1000)+(now.tv_nsec/1000000)) - (session->alive.tv_nsec/1000000);
diff --git a/src/worker.c b/src/worker.c
index ab049c6..2734c31 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -598,9 +598,17 @@ void WSS_connect(wss_server_t *server) {
         }
 
         if (NULL != server->ssl_ctx) {
-            if (! WSS_session_ssl(server, session)) {
+            bool ssl;
+
+            // The thread that checks for timeouts sees the session already
+            pthread_mutex_lock(&session->lock_io);
+            ssl = WSS_session_ssl(server, session);
+            if (! ssl) {
                 session->closing = true;
-            } else {
+            }
+            pthread_mutex_unlock(&session->lock_io);
+
+            if (ssl) {
                 WSS_ssl_handshake(server, session);
             }
         } else {
-- 
2.43.0


From 1fa54aebf7e25ad58085c332993dfff5a28d60db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:49 +0000
Subject: [PATCH 26/57] fix: a producer that found no free record of a ring
 buffer used another one's

---
 src/ringbuf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ringbuf.c b/src/ringbuf.c
index be583d5..d4901b2 100644
--- a/src/ringbuf.c
+++ b/src/ringbuf.c
@@ -195,8 +195,8 @@ register_worker(ringbuf_t *rbuf, unsigned registration_type)
 			break;
 	}
 
-	/* Register this worker-record. */
-	return w;
+	/* Without a free worker-record, w is that of another producer. */
+	return acquired ? w : NULL;
 }
 
 /*
-- 
2.43.0


From 79285e89f6bbe787bdeeca0c36833db1f2a6a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 27/57] fix: sizes that overflow were allocated as small blocks

---
 src/alloc.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/alloc.c b/src/alloc.c
index 5cf785c..5944c28 100644
--- a/src/alloc.c
+++ b/src/alloc.c
@@ -1,9 +1,16 @@
+#include <stdint.h>             /* PTRDIFF_MAX */
 #include <stdlib.h>             /* atoi, malloc, free, realloc */
 #include <string.h>             /* strerror, memset, strncpy, memcpy, strlen */
 
 #include "alloc.h"
 #include "predict.h"
 
+/**
+ * No object is larger than this. The allocator itself does not check for sizes
+ * that overflow.
+ */
+#define WSS_ALLOC_MAX ((size_t)PTRDIFF_MAX)
+
 /**
  * Function that allocates memory.
  * @param 	ptr		[void *] 	"The memory that needs to be copies"
@@ -32,7 +39,7 @@ void *WSS_copy(void *ptr, size_t size) {
 void *WSS_malloc(size_t size) {
 	void *buffer;
 
-    if ( unlikely(size == 0) ) {
+    if ( unlikely(size == 0 || size > WSS_ALLOC_MAX) ) {
         return NULL;
     }
 
@@ -62,7 +69,7 @@ void *WSS_malloc(size_t size) {
 void *WSS_calloc(size_t memb, size_t size) {
 	void *buffer;
 
-    if ( unlikely(size == 0 || memb == 0) ) {
+    if ( unlikely(size == 0 || memb == 0 || memb > WSS_ALLOC_MAX / size) ) {
         return NULL;
     }
 
@@ -98,6 +105,13 @@ void *WSS_realloc(void **ptr, size_t oldSize, size_t newSize) {
         return NULL;
     }
     
+    if ( unlikely(newSize > WSS_ALLOC_MAX) ) {
+        if ( likely(ptr != NULL) ) {
+            WSS_free(ptr);
+        }
+        return NULL;
+    }
+
     if ( unlikely(ptr == NULL) ) {
 #ifdef USE_RPMALLOC
         if ( unlikely(NULL == (buffer = rprealloc(NULL, newSize))) ) {
-- 
2.43.0


From 9c13ceda2e6f07ca9f2b84c2e5dd66bafb85dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 28/57] fix: rpmalloc looked at a span after another thread
 could have reused it

---
 src/rpmalloc.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rpmalloc.c b/src/rpmalloc.c
index 373d0ea..ec3d07f 100644
--- a/src/rpmalloc.c
+++ b/src/rpmalloc.c
@@ -2063,8 +2063,10 @@ _rpmalloc_deallocate_defer_small_or_medium(span_t* span, void* block) {
 	} while (free_list == INVALID_POINTER);
 	*((void**)block) = free_list;
 	uint32_t free_count = (uint32_t)atomic_incr32(&span->list_size);
+	// The span must not be accessed once the list is stored, unless this was the last block: it could be in use again
+	int all_deferred_free = (free_count == span->block_count);
 	atomic_store_ptr_release(&span->free_list_deferred, block);
-	if (free_count == span->block_count) {
+	if (all_deferred_free) {
 		// Span was completely freed by this block. Due to the INVALID_POINTER spin lock
 		// no other thread can reach this state simultaneously on this span.
 		// Safe to move to owner heap deferred cache
-- 
2.43.0


From d2d5e1620c2fcdadc5892e248ded0d3c83fcaed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 29/57] fix: a JSON literal cut off at the end of the document
 was read past the end

---
 src/json.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/json.c b/src/json.c
index b3e04c7..25c5623 100644
--- a/src/json.c
+++ b/src/json.c
@@ -600,7 +600,7 @@ if ((uchar & 0xF800) == 0xD800) {
 
                      case 't':
 
-                        if ((end - state.ptr) < 3 || *(++ state.ptr) != 'r' ||
+                        if ((end - state.ptr) < 4 || *(++ state.ptr) != 'r' ||
                             *(++ state.ptr) != 'u' || *(++ state.ptr) != 'e')
                         {
                            goto e_unknown_value;
@@ -616,7 +616,7 @@ if ((uchar & 0xF800) == 0xD800) {
 
                      case 'f':
 
-                        if ((end - state.ptr) < 4 || *(++ state.ptr) != 'a' ||
+                        if ((end - state.ptr) < 5 || *(++ state.ptr) != 'a' ||
                             *(++ state.ptr) != 'l' || *(++ state.ptr) != 's' ||
                             *(++ state.ptr) != 'e')
                         {
@@ -631,7 +631,7 @@ if ((uchar & 0xF800) == 0xD800) {
 
                      case 'n':
 
-                        if ((end - state.ptr) < 3 || *(++ state.ptr) != 'u' ||
+                        if ((end - state.ptr) < 4 || *(++ state.ptr) != 'u' ||
                             *(++ state.ptr) != 'l' || *(++ state.ptr) != 'l')
                         {
                            goto e_unknown_value;
-- 
2.43.0


From 4c31bcd3d618a763db6f63333aca3053eef37157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 30/57] fix: JSON escapes of characters beyond U+1FFFF gave
 other characters

---
 src/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/json.c b/src/json.c
index 25c5623..2aa799c 100644
--- a/src/json.c
+++ b/src/json.c
@@ -328,7 +328,7 @@ if ((uchar & 0xF800) == 0xD800) {
                         uc_b2 = (uc_b3 << 4) | uc_b4;
                         uchar2 = (uc_b1 << 8) | uc_b2;
 
-                        uchar = 0x010000 | ((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF);
+                        uchar = 0x010000 + (((uchar & 0x3FF) << 10) | (uchar2 & 0x3FF));
                     }
 
                     if (sizeof (json_char) >= sizeof (json_uchar) || (uchar <= 0x7F))
-- 
2.43.0


From 81183613fc5e44cabd2282cecc998938a355e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 31/57] fix: a minus sign without digits was accepted as a JSON
 number

---
 src/json.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/json.c b/src/json.c
index 2aa799c..fde4be0 100644
--- a/src/json.c
+++ b/src/json.c
@@ -802,6 +802,11 @@ if ((uchar & 0xF800) == 0xD800) {
                   continue;
                }
 
+               if (top->type == json_integer && !num_digits)
+               {  sprintf (error, "%u:%u: Expected digit after `-`", line_and_col);
+                  goto e_failed;
+               }
+
                if (! (flags & flag_num_e))
                {
                   if (top->type == json_double)
-- 
2.43.0


From 1379e7d6f90f424fa746b4ae72d35fa7d91db2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:18 +0000
Subject: [PATCH 32/57] fix: JSON numbers with many digits were converted to
 other numbers

---
 src/json.c | 78 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 48 insertions(+), 30 deletions(-)

diff --git a/src/json.c b/src/json.c
index fde4be0..fabf235 100644
--- a/src/json.c
+++ b/src/json.c
@@ -39,7 +39,7 @@ const struct _json_value json_value_none;
 #include <stdio.h>
 #include <string.h>
 #include <ctype.h>
-#include <math.h>
+#include <errno.h>
 
 typedef unsigned int json_uchar;
 
@@ -192,6 +192,37 @@ static int new_value (json_state * state,
    return 1;
 }
 
+/* Converts a number that is no integer, or has too many digits to be converted
+ * one after the other. An integer that does not fit becomes a double.
+ */
+static int number_convert (json_state * state, json_value * value,
+                           const json_char * start, const json_char * end)
+{
+   size_t length = end - start;
+   char * text = (char *) state->settings.mem_alloc (length + 1, 0, state->settings.user_data);
+
+   if (!text)
+      return 0;
+
+   memcpy (text, start, length);
+   text [length] = '\0';
+
+   if (value->type == json_integer)
+   {
+      errno = 0;
+      value->u.integer = strtoll (text, 0, 10);
+
+      if (errno == ERANGE)
+         value->type = json_double;
+   }
+
+   if (value->type == json_double)
+      value->u.dbl = strtod (text, 0);
+
+   state->settings.mem_free (text, state->settings.user_data);
+   return 1;
+}
+
 #define whitespace \
    case '\n': ++ state.cur_line;  state.cur_col = 0; \
    case ' ': case '\t': case '\r'
@@ -215,7 +246,7 @@ static const long
    flag_num_zero         = 1 << 9,
    flag_num_e            = 1 << 10,
    flag_num_e_got_sign   = 1 << 11,
-   flag_num_e_negative   = 1 << 12,
+   flag_num_long         = 1 << 12,
    flag_line_comment     = 1 << 13,
    flag_block_comment    = 1 << 14;
 
@@ -229,8 +260,8 @@ json_value * json_parse_ex (json_settings * settings,
    json_value * top, * root, * alloc = 0;
    json_state state = { 0 };
    long flags;
-   long num_digits = 0, num_e = 0;
-   json_int_t num_fraction = 0;
+   long num_digits = 0;
+   const json_char * num_start = 0;
 
    /* Skip UTF-8 BOM
     */
@@ -669,12 +700,11 @@ if ((uchar & 0xF800) == 0xD800) {
                            }
 
                            flags &= ~ (flag_num_negative | flag_num_e |
-                                        flag_num_e_got_sign | flag_num_e_negative |
+                                        flag_num_e_got_sign | flag_num_long |
                                            flag_num_zero);
 
                            num_digits = 0;
-                           num_fraction = 0;
-                           num_e = 0;
+                           num_start = state.ptr;
 
                            if (b != '-')
                            {
@@ -764,15 +794,17 @@ if ((uchar & 0xF800) == 0xD800) {
                      else
                      {
                         flags |= flag_num_e_got_sign;
-                        num_e = (num_e * 10) + (b - '0');
                         continue;
                      }
 
-                     top->u.integer = (top->u.integer * 10) + (b - '0');
+                     /* more digits may not fit, and are converted at the end */
+                     if (num_digits <= 18)
+                        top->u.integer = (top->u.integer * 10) + (b - '0');
+                     else
+                        flags |= flag_num_long;
                      continue;
                   }
 
-                  num_fraction = (num_fraction * 10) + (b - '0');
                   continue;
                }
 
@@ -781,10 +813,6 @@ if ((uchar & 0xF800) == 0xD800) {
                   if ( (flags & flag_num_e) && !(flags & flag_num_e_got_sign))
                   {
                      flags |= flag_num_e_got_sign;
-
-                     if (b == '-')
-                        flags |= flag_num_e_negative;
-
                      continue;
                   }
                }
@@ -796,7 +824,6 @@ if ((uchar & 0xF800) == 0xD800) {
                   }
 
                   top->type = json_double;
-                  top->u.dbl = (double) top->u.integer;
 
                   num_digits = 0;
                   continue;
@@ -815,19 +842,13 @@ if ((uchar & 0xF800) == 0xD800) {
                      {  sprintf (error, "%u:%u: Expected digit after `.`", line_and_col);
                         goto e_failed;
                      }
-
-                     top->u.dbl += ((double) num_fraction) / (pow (10.0, (double) num_digits));
                   }
 
                   if (b == 'e' || b == 'E')
                   {
                      flags |= flag_num_e;
 
-                     if (top->type == json_integer)
-                     {
-                        top->type = json_double;
-                        top->u.dbl = (double) top->u.integer;
-                     }
+                     top->type = json_double;
 
                      num_digits = 0;
                      flags &= ~ flag_num_zero;
@@ -841,18 +862,15 @@ if ((uchar & 0xF800) == 0xD800) {
                   {  sprintf (error, "%u:%u: Expected digit after `e`", line_and_col);
                      goto e_failed;
                   }
-
-                  top->u.dbl *= pow (10.0, (double)
-                      (flags & flag_num_e_negative ? - num_e : num_e));
                }
 
-               if (flags & flag_num_negative)
+               if (top->type == json_double || (flags & flag_num_long))
                {
-                  if (top->type == json_integer)
-                     top->u.integer = - top->u.integer;
-                  else
-                     top->u.dbl = - top->u.dbl;
+                  if (!number_convert (&state, top, num_start, state.ptr))
+                     goto e_alloc_failure;
                }
+               else if (flags & flag_num_negative)
+                  top->u.integer = - top->u.integer;
 
                flags |= flag_next | flag_reproc;
                break;
-- 
2.43.0


From cc13a949469f8e241bd9dc225752e53baa13a09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:26 +0000
Subject: [PATCH 33/57] fix: the reason of a close frame was read past the end
 of the message

---
 src/frame.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index bc7984e..0b5182e 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -513,18 +513,33 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
     frames = *fs;
 
     if (opcode == CLOSE_FRAME) {
+        // The reason is not necessarily terminated, and a control frame has no
+        // more than 125 bytes of payload
+        char reason[125-sizeof(uint16_t)+1];
+        size_t reason_length = 0;
+
         if ( likely(message_length >= sizeof(uint16_t)) ) {
-            memcpy(&code, msg, sizeof(uint16_t));
-            code = ntohs(code);
+            uint16_t nbo_code;
+            memcpy(&nbo_code, msg, sizeof(uint16_t));
+            code = ntohs(nbo_code);
             msg = msg + sizeof(uint16_t);
+            reason_length = message_length - sizeof(uint16_t);
+            if ( unlikely(reason_length > sizeof(reason)-1) ) {
+                reason_length = sizeof(reason)-1;
+                // Do not cut through a character
+                while ( reason_length > 0 && (msg[reason_length] & 0xC0) == 0x80 ) {
+                    reason_length--;
+                }
+            }
+            memcpy(reason, msg, reason_length);
         } else if ( unlikely(message_length == 1) ) {
             code = CLOSE_PROTOCOL;
-            msg = msg + 1;
         } else {
             code = CLOSE_NORMAL;
         }
+        reason[reason_length] = '\0';
 
-        frame = WSS_closing_frame(code, msg);
+        frame = WSS_closing_frame(code, NULL == message ? NULL : reason);
         frames[0] = frame;
         return 1;
     }
-- 
2.43.0


From a67e87a34ec720c8f59383c3d68df192f5cee76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:50 +0000
Subject: [PATCH 34/57] fix: a directory given as the configuration file
 overflowed the size to read

---
 src/str.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/str.c b/src/str.c
index 107bbdc..4749c45 100644
--- a/src/str.c
+++ b/src/str.c
@@ -1,4 +1,5 @@
 #include <errno.h> 				/* errno */
+#include <limits.h>             /* LONG_MAX */
 #include <stdio.h> 				/* printf, fflush, fprintf, fopen, fclose */
 #include <stdlib.h>				/* atoi, malloc, free, realloc, calloc */
 #include <string.h>             /* strerror, memset, strncpy, memcpy, strlen,
@@ -96,6 +97,14 @@ size_t strload(char *path, char **str) {
 
     size = ftell(file);
 
+    // Directories have the largest size there is
+    if ( unlikely(size < 0 || size == LONG_MAX) ) {
+        WSS_log_error("Unable to determine the size of file: %s", path);
+        fclose(file);
+        *str = NULL;
+        return 0;
+    }
+
     if ( unlikely(fseek(file, 0, SEEK_SET)) ) {
         WSS_log_error("Unable to seek back to the start of file: %s", strerror(errno));
         fclose(file);
-- 
2.43.0


From 80021ca864f0f66400a9dbf2838f664d71f25c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 35/57] fix: a second configuration file leaked what the first
 one had loaded

---
 src/main.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/main.c b/src/main.c
index 51c3a78..097d3c3 100644
--- a/src/main.c
+++ b/src/main.c
@@ -41,6 +41,7 @@ int main(int argc, char *argv[]) {
     wss_config_t config;
     FILE *file;
     pthread_mutex_t log_lock;
+    char *path = NULL;
     char *echo = "subprotocols/echo/echo.so", *broadcast = "subprotocols/broadcast/broadcast.so";
 
 #ifdef USE_RPMALLOC
@@ -138,19 +139,7 @@ int main(int argc, char *argv[]) {
     while ( likely((err = getopt_long(argc, argv, "c:h", long_options, NULL)) != -1)) {
         switch (err) {
             case 'c':
-                if ( unlikely(WSS_SUCCESS != WSS_config_load(&config, optarg)) ) {
-                    WSS_config_free(&config);
-
-                    if ( unlikely((err = pthread_mutex_destroy(&log_lock)) != 0) ) {
-                        WSS_log_error("Unable to initialize log lock: %s", strerror(err));
-                    }
-
-                    fclose(file);
-#ifdef USE_RPMALLOC
-                    rpmalloc_finalize();
-#endif
-                    return EXIT_FAILURE;
-                }
+                path = optarg;
                 break;
             case 'h':
                 wss_help(stdout);
@@ -182,6 +171,21 @@ int main(int argc, char *argv[]) {
         }
     }
 
+    // The last file given counts, what was loaded is released only once
+    if ( unlikely(NULL != path && WSS_SUCCESS != WSS_config_load(&config, path)) ) {
+        WSS_config_free(&config);
+
+        if ( unlikely((err = pthread_mutex_destroy(&log_lock)) != 0) ) {
+            WSS_log_error("Unable to initialize log lock: %s", strerror(err));
+        }
+
+        fclose(file);
+#ifdef USE_RPMALLOC
+        rpmalloc_finalize();
+#endif
+        return EXIT_FAILURE;
+    }
+
     // If in production mode do not print to stdout
 #ifdef NDEBUG
     WSS_log_info("Log is in quiet mode");
-- 
2.43.0


From ca431913844c0b943b899c15fc1b35406c9adce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:56 +0000
Subject: [PATCH 36/57] fix: a thread pool that could not be created leaked its
 queue

---
 src/pool.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pool.c b/src/pool.c
index c063961..8525c08 100644
--- a/src/pool.c
+++ b/src/pool.c
@@ -266,11 +266,13 @@ int threadpool_free(threadpool_t *pool) {
         return -1;
     }
 
+    /* Either of them could be missing */
+    WSS_free((void **) &pool->queue);
+
     /* Did we manage to allocate ? */
     if (pool->threads) {
         pthread_attr_destroy(&pool->attr);
         WSS_free((void **) &pool->threads);
-        WSS_free((void **) &pool->queue);
 
         /* Because we allocate pool->threads after initializing the
            mutex and condition variable, we're sure they're
-- 
2.43.0


From a3ee84737b7013577f280373a3a478f76cfdac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:53 +0000
Subject: [PATCH 37/57] fix: a frame size of 0 divided by zero when a message
 was split

---
 src/frame.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/frame.c b/src/frame.c
index 0b5182e..23f43d5 100644
--- a/src/frame.c
+++ b/src/frame.c
@@ -487,6 +487,7 @@ size_t WSS_stringify_frames(wss_frame_t **frames, size_t size, char **message) {
 size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *message, size_t message_length, wss_frame_t ***fs) {
     size_t i, j, offset = 0;
     wss_frame_t *frame;
+    size_t size_frame;
     size_t frames_count;
     wss_frame_t **frames;
     wss_close_t code;
@@ -502,7 +503,9 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         return 0;
     }
 
-    frames_count = MAX(1, (size_t)ceil((double)message_length/(double)config->size_frame));
+    // A frame without room for a single byte could never carry the message
+    size_frame = MAX(1, (size_t)config->size_frame);
+    frames_count = MAX(1, message_length/size_frame + (message_length%size_frame != 0));
 
     if ( unlikely(NULL == (*fs = WSS_malloc(frames_count*sizeof(wss_frame_t *)))) ) {
         WSS_log_error("Unable to allocate closing frame");
@@ -561,7 +564,7 @@ size_t WSS_create_frames(wss_config_t *config, wss_opcode_t opcode, char *messag
         frame->opcode = (i == 0) ? opcode : CONTINUATION_FRAME;
         frame->mask = 0;
 
-        frame->applicationDataLength = MIN(message_length-(config->size_frame*i), config->size_frame);
+        frame->applicationDataLength = MIN(message_length-(size_frame*i), size_frame);
         if ( unlikely(NULL == (frame->payload = WSS_malloc(frame->applicationDataLength+1))) ) {
             WSS_log_error("Unable to allocate frame application data");
             for (j = 0; j < i; j++) {
-- 
2.43.0


From 5341ab7d0aeda0d1ab8a4ba98c6a7327e55ba32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:38 +0000
Subject: [PATCH 38/57] fix: compressed messages were sent in frames larger
 than the configured size

---
 src/message.c | 58 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 57 insertions(+), 1 deletion(-)

diff --git a/src/message.c b/src/message.c
index 81b53ac..0d1cbbe 100644
--- a/src/message.c
+++ b/src/message.c
@@ -12,6 +12,62 @@
 
 #include <sys/socket.h>
 
+/**
+ * Converts frames to bytes. Frames that an extension made larger than the
+ * configured size are split again.
+ *
+ * @param   config          [wss_config_t *]    "The configuration"
+ * @param   frames          [wss_frame_t **]    "The frames of a message"
+ * @param   frames_count    [size_t]            "The amount of frames"
+ * @param   out             [char **]           "The bytes of the frames"
+ * @return                  [size_t]            "The amount of bytes"
+ */
+static size_t stringify(wss_config_t *config, wss_frame_t **frames, size_t frames_count, char **out) {
+    size_t i, count;
+    char *message;
+    wss_frame_t **split;
+    size_t length = 0, written = 0;
+    bool oversized = false;
+
+    for (i = 0; likely(i < frames_count); i++) {
+        oversized |= frames[i]->payloadLength > MAX(1, config->size_frame);
+        length += frames[i]->payloadLength;
+    }
+
+    if ( likely(! oversized || frames[0]->opcode >= CLOSE_FRAME) ) {
+        return WSS_stringify_frames(frames, frames_count, out);
+    }
+
+    if ( unlikely(NULL == (message = WSS_malloc(length))) ) {
+        return 0;
+    }
+
+    for (i = 0; likely(i < frames_count); i++) {
+        if ( likely(frames[i]->payloadLength > 0) ) {
+            memcpy(message+written, frames[i]->payload, frames[i]->payloadLength);
+        }
+        written += frames[i]->payloadLength;
+    }
+
+    count = WSS_create_frames(config, frames[0]->opcode, message, length, &split);
+    WSS_free((void **) &message);
+    if ( unlikely(count == 0) ) {
+        return 0;
+    }
+
+    split[0]->rsv1 = frames[0]->rsv1;
+    split[0]->rsv2 = frames[0]->rsv2;
+    split[0]->rsv3 = frames[0]->rsv3;
+    written = WSS_stringify_frames(split, count, out);
+
+    for (i = 0; likely(i < count); i++) {
+        WSS_free_frame(split[i]);
+    }
+    WSS_free((void **) &split);
+
+    return written;
+}
+
 void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_t frames_count) {
     size_t j, k;
     ssize_t off;
@@ -48,7 +104,7 @@ void WSS_message_send_frames(void *serv, void *sess, wss_frame_t **frames, size_
         }
     }
 
-    if ( unlikely((out_length = WSS_stringify_frames(frames, frames_count, &out)) == 0) ) {
+    if ( unlikely((out_length = stringify(server->config, frames, frames_count, &out)) == 0) ) {
         WSS_log_error("Unable to convert frames to message");
 
         pthread_mutex_unlock(&session->lock_io);
-- 
2.43.0


From eb844d54a7f8e3565e9ff58faa7112cc76ca5014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:22 +0000
Subject: [PATCH 39/57] fix: an extension parameter with a value but no name
 was accepted

---
 extensions/permessage-deflate/permessage-deflate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/permessage-deflate/permessage-deflate.c b/extensions/permessage-deflate/permessage-deflate.c
index ae97bd9..8bd3fd9 100644
--- a/extensions/permessage-deflate/permessage-deflate.c
+++ b/extensions/permessage-deflate/permessage-deflate.c
@@ -195,7 +195,7 @@ static bool parse_param(const char *param, param_t *p) {
         } else if ( strcasecmp(EXT_SERVER_NO_CONTEXT_TAKEOVER, sep) == 0 && NULL == value && ! snct ) {
             snct = true;
             p->server_no_context_takeover = true;
-        } else if ( sep[0] != '\0' ) {
+        } else if ( sep[0] != '\0' || NULL != value ) {
             // Unknown, repeated or with a value it does not take
             return false;
         }
-- 
2.43.0


From a2cfc5b0185f17508f59243136b6b1e20a24d9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:12 +0000
Subject: [PATCH 40/57] fix: clients waiting while all descriptors were in use
 were not accepted afterwards

The listening descriptor is registered edge-triggered, so that after accept()
had failed with EMFILE nothing told the server of the connections that were
still waiting, until somebody else connected. The next session that ends now
makes the server look again.
---
 include/event.h |  9 +++++++++
 src/event.c     | 41 +++++++++++++++++++++++++++++++++++++++++
 src/worker.c    | 26 ++++++++++++++++++++++++++
 3 files changed, 76 insertions(+)

diff --git a/include/event.h b/include/event.h
index 9860cdf..a4f35c1 100644
--- a/include/event.h
+++ b/include/event.h
@@ -52,6 +52,15 @@ wss_error_t WSS_poll_set_write(wss_server_t *server, int fd);
  */
 wss_error_t WSS_poll_set_read(wss_server_t *server, int fd);
 
+/**
+ * Function that makes the poll instance report connections that are waiting to
+ * be accepted, even if they have been reported before.
+ *
+ * @param 	server	    [wss_server_t *]	"A pointer to a server structure"
+ * @return 			    [wss_error_t]       "The error status"
+ */
+wss_error_t WSS_poll_listen(wss_server_t *server);
+
 /**
  * Function removes the client filedescriptor from the poll instance 
  *
diff --git a/src/event.c b/src/event.c
index 5072015..fd7fc49 100644
--- a/src/event.c
+++ b/src/event.c
@@ -325,6 +325,20 @@ wss_error_t WSS_poll_set_read(wss_server_t *server, int fd) {
     return WSS_SUCCESS;
 }
 
+/**
+ * Function that makes the poll instance report connections that are waiting to
+ * be accepted, even if they have been reported before.
+ *
+ * @param 	server      [wss_server_t *]    "A pointer to a server structure"
+ * @return 			    [wss_error_t]       "The error status"
+ */
+wss_error_t WSS_poll_listen(wss_server_t *server) {
+    // These are reported for as long as they are waiting
+    (void) server;
+
+    return WSS_SUCCESS;
+}
+
 /**
  * Function removes the client filedescriptor from the poll instance 
  *
@@ -682,6 +696,19 @@ wss_error_t WSS_poll_set_read(wss_server_t *server, int fd) {
     return WSS_SUCCESS;
 }
 
+/**
+ * Function that makes the poll instance report connections that are waiting to
+ * be accepted, even if they have been reported before.
+ *
+ * @param 	server      [wss_server_t *]    "A pointer to a server structure"
+ * @return 			    [wss_error_t]       "The error status"
+ */
+wss_error_t WSS_poll_listen(wss_server_t *server) {
+    WSS_log_trace("Rearms server for epoll events");
+
+    return WSS_poll_add(server->poll_fd, server->fd, EPOLLIN | EPOLLET | EPOLLRDHUP);
+}
+
 /**
  * Function removes the client filedescriptor from the poll instance 
  *
@@ -1001,6 +1028,20 @@ wss_error_t WSS_poll_set_read(wss_server_t *server, int fd) {
     return WSS_SUCCESS;
 }
 
+/**
+ * Function that makes the poll instance report connections that are waiting to
+ * be accepted, even if they have been reported before.
+ *
+ * @param 	server      [wss_server_t *]    "A pointer to a server structure"
+ * @return 			    [wss_error_t]       "The error status"
+ */
+wss_error_t WSS_poll_listen(wss_server_t *server) {
+    // These are reported for as long as they are waiting
+    (void) server;
+
+    return WSS_SUCCESS;
+}
+
 /**
  * Function removes the client filedescriptor from the poll instance 
  *
diff --git a/src/worker.c b/src/worker.c
index 2734c31..ae723ea 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -407,6 +407,12 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
     return msg;
 }
 
+/**
+ * The servers (HTTP and HTTPS) that have clients waiting to be accepted, because
+ * all filedescriptors were in use.
+ */
+static wss_server_t *starved[2] = {NULL, NULL};
+
 /**
  * Function that disconnects a session and freeing any allocated memory used by
  * the session. The caller must hold a job on the session, which is released by
@@ -417,7 +423,9 @@ static wss_message_t *http_response(wss_header_t *header, enum HttpStatus_Code c
  * @return          [void]
  */
 void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
+    int i;
     wss_error_t err;
+    wss_server_t *waiting;
     bool dc;
 
     // If we are already closing
@@ -460,6 +468,13 @@ void WSS_disconnect(wss_server_t *server, wss_session_t *session) {
     if ( unlikely(WSS_SUCCESS != (err = WSS_session_delete_no_lock(session))) ) {
         WSS_log_error("Unable to delete client session, received error code: %d", err);
     }
+
+    // A filedescriptor is free again
+    for (i = 0; likely(i < 2); i++) {
+        if ( unlikely(NULL != (waiting = __atomic_exchange_n(&starved[i], NULL, __ATOMIC_SEQ_CST))) ) {
+            WSS_poll_listen(waiting);
+        }
+    }
 }
 
 /**
@@ -523,6 +538,7 @@ void WSS_connect(wss_server_t *server) {
     socklen_t client_size;
     wss_session_t *session;
     ringbuf_t *ringbuf;
+    bool retried = false;
     size_t workers = server->config->pool_workers+1;
 
     while (1) {
@@ -542,10 +558,20 @@ void WSS_connect(wss_server_t *server) {
                 continue;
             }
 
+            // The next session that ends makes the server try again. One may have
+            // ended just before it could know
+            if ( unlikely(! retried && (EMFILE == errno || ENFILE == errno)) ) {
+                retried = true;
+                __atomic_store_n(&starved[NULL != server->ssl_ctx], server, __ATOMIC_SEQ_CST);
+                continue;
+            }
+
             WSS_log_fatal("Accept failed: %s", strerror(errno));
             break;
         }
 
+        retried = false;
+
         WSS_log_trace("Received incoming connection");
 
         WSS_socket_non_blocking(client_fd);
-- 
2.43.0


From 49ed39d7be1f7151b36c98eb9fc00bf68dc08b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 41/57] fix: a subprotocol that sent or allocated from a thread
 of its own crashed the server

---
 src/alloc.c | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/src/alloc.c b/src/alloc.c
index 5944c28..f6d35ec 100644
--- a/src/alloc.c
+++ b/src/alloc.c
@@ -1,16 +1,54 @@
 #include <stdint.h>             /* PTRDIFF_MAX */
+#include <stdbool.h>            /* bool, true, false */
 #include <stdlib.h>             /* atoi, malloc, free, realloc */
 #include <string.h>             /* strerror, memset, strncpy, memcpy, strlen */
 
 #include "alloc.h"
 #include "predict.h"
 
+#ifdef USE_RPMALLOC
+#include <pthread.h>            /* pthread_key_create, pthread_once, pthread_setspecific */
+#endif
+
 /**
  * No object is larger than this. The allocator itself does not check for sizes
  * that overflow.
  */
 #define WSS_ALLOC_MAX ((size_t)PTRDIFF_MAX)
 
+#ifdef USE_RPMALLOC
+static pthread_key_t thread_key;
+static pthread_once_t thread_once = PTHREAD_ONCE_INIT;
+static bool thread_key_created = false;
+
+static void thread_finalize(void *ptr) {
+    (void) ptr;
+    rpmalloc_thread_finalize();
+}
+
+static void thread_key_create(void) {
+    thread_key_created = pthread_key_create(&thread_key, thread_finalize) == 0;
+}
+
+/**
+ * Function that makes the calling thread known to the allocator. The threads of
+ * the server are, but e.g. a subprotocol could have threads of its own that
+ * send messages.
+ *
+ * @return 	      	[void]
+ */
+static inline void thread_initialize(void) {
+    if ( unlikely(! rpmalloc_is_thread_initialized()) ) {
+        rpmalloc_thread_initialize();
+
+        pthread_once(&thread_once, thread_key_create);
+        if ( likely(thread_key_created) ) {
+            pthread_setspecific(thread_key, &thread_key);
+        }
+    }
+}
+#endif
+
 /**
  * Function that allocates memory.
  * @param 	ptr		[void *] 	"The memory that needs to be copies"
@@ -44,6 +82,8 @@ void *WSS_malloc(size_t size) {
     }
 
 #ifdef USE_RPMALLOC
+	thread_initialize();
+
 	if ( unlikely(NULL == (buffer = rpmalloc( size ))) ) {
 		return NULL;
 	}
@@ -74,6 +114,8 @@ void *WSS_calloc(size_t memb, size_t size) {
     }
 
 #ifdef USE_RPMALLOC
+	thread_initialize();
+
 	if ( unlikely(NULL == (buffer = rpcalloc(memb, size))) ) {
 		return NULL;
 	}
@@ -112,6 +154,10 @@ void *WSS_realloc(void **ptr, size_t oldSize, size_t newSize) {
         return NULL;
     }
 
+#ifdef USE_RPMALLOC
+    thread_initialize();
+#endif
+
     if ( unlikely(ptr == NULL) ) {
 #ifdef USE_RPMALLOC
         if ( unlikely(NULL == (buffer = rprealloc(NULL, newSize))) ) {
-- 
2.43.0


From 842ca9a4d6f0e9c3ccd72cca4ce3cadbe0fc1bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:39 +0000
Subject: [PATCH 42/57] fix: the session lock was destroyed while threads of a
 subprotocol could be sending

---
 src/server.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/server.c b/src/server.c
index 5f06dcf..4a0616c 100644
--- a/src/server.c
+++ b/src/server.c
@@ -629,6 +629,11 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("Freed memory associated with HTTPS server instance");
     }
 
+    // A subprotocol could be sending from threads of its own until here
+    WSS_destroy_subprotocols();
+
+    WSS_destroy_extensions();
+
     if ( unlikely(WSS_SUCCESS != WSS_session_destroy_lock()) ) {
         WSS_server_set_state(HALT_ERROR);
     }
@@ -639,10 +644,6 @@ int WSS_server_start(wss_config_t *config) {
         ret = EXIT_FAILURE;
     }
 
-    WSS_destroy_subprotocols();
-
-    WSS_destroy_extensions();
-    
     pthread_mutex_destroy(&state.lock);
 
     return ret;
-- 
2.43.0


From e5283401ec7db4bddff9c3a76171375159a4272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 43/57] fix: the response to a handshake that accepts several
 extensions had a stray byte

The length of the response was computed as if every extension had parameters
and was followed by a line end, hence NUL bytes were sent after the response
when several extensions, or one without parameters, were accepted.
---
 src/worker.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index ae723ea..0c2208f 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -92,11 +92,11 @@ static wss_message_t *handshake_response(wss_header_t *header, enum HttpStatus_C
         for (j = 0; likely(j < header->ws_extensions_count); j++) {
             headers += (strlen(header->ws_extensions[j]->name))*sizeof(char);
             if ( likely(NULL != header->ws_extensions[j]->accepted) ) {
-                headers += strlen(header->ws_extensions[j]->accepted)*sizeof(char);
+                headers += (strlen(header->ws_extensions[j]->accepted)+1)*sizeof(char);
             }
-            headers += 2*sizeof(char);
         }
-        headers += (header->ws_extensions_count)*sizeof(char);
+        headers += (header->ws_extensions_count-1)*sizeof(char);
+        headers += 2*sizeof(char);
     }
     
     if ( NULL != header->ws_protocol ) {
-- 
2.43.0


From 5c4792fd95748d1b92166d7f5b31fd40b5fd7d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:58 +0000
Subject: [PATCH 44/57] fix: the extensions a client applied were undone in the
 order they were applied

The negotiated extensions stack, the last one applied by the client has to be
undone first (RFC 6455, section 9.1).
---
 src/worker.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/worker.c b/src/worker.c
index 0c2208f..897b0ae 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1469,8 +1469,10 @@ void WSS_read(wss_server_t *server, wss_session_t *session) {
 
             WSS_log_trace("Applying %d extensions on input", session->header->ws_extensions_count);
 
-            // Apply extensions to collection of frames (message)
-            for (j = 0; likely(j < session->header->ws_extensions_count); j++) {
+            // Apply extensions to collection of frames (message). The first of
+            // the negotiated extensions was the first to be applied by the
+            // client, and hence is the last to be undone.
+            for (j = session->header->ws_extensions_count; likely(j-- > 0);) {
                 // Apply extension perframe
                 for (k = 0; likely(k < len); k++) {
                     session->header->ws_extensions[j]->ext->inframe(
-- 
2.43.0


From b5494c4d04d124911ca01d40cc6de478e6ae92d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:12 +0000
Subject: [PATCH 45/57] fix: the cipher preference of the server was set as a
 mode instead of an option

---
 src/ssl.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ssl.c b/src/ssl.c
index 8099405..669f9ec 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -130,11 +130,11 @@ wss_error_t WSS_http_ssl(wss_server_t *server) {
 
     if (! server->config->ssl_compression) {
         WSS_log_trace("Do not use compression even if it is supported.");
-        SSL_CTX_set_mode(server->ssl_ctx, SSL_OP_NO_COMPRESSION);
+        SSL_CTX_set_options(server->ssl_ctx, SSL_OP_NO_COMPRESSION);
     }
 
     WSS_log_trace("When choosing a cipher, use the server's preferences instead of the client preferences.");
-    SSL_CTX_set_mode(server->ssl_ctx, SSL_OP_CIPHER_SERVER_PREFERENCE);
+    SSL_CTX_set_options(server->ssl_ctx, SSL_OP_CIPHER_SERVER_PREFERENCE);
 
     WSS_log_trace("Disable use of session and ticket cache and resumption");
     SSL_CTX_set_session_cache_mode(server->ssl_ctx, SSL_SESS_CACHE_OFF);
@@ -273,11 +273,11 @@ wss_error_t WSS_http_ssl(wss_server_t *server) {
 
     if (! server->config->ssl_compression) {
         WSS_log_trace("Do not use compression even if it is supported.");
-        wolfSSL_CTX_set_mode(server->ssl_ctx, SSL_OP_NO_COMPRESSION);
+        wolfSSL_CTX_set_options(server->ssl_ctx, SSL_OP_NO_COMPRESSION);
     }
 
     WSS_log_trace("When choosing a cipher, use the server's preferences instead of the client preferences.");
-    wolfSSL_CTX_set_mode(server->ssl_ctx, SSL_OP_CIPHER_SERVER_PREFERENCE);
+    wolfSSL_CTX_set_options(server->ssl_ctx, SSL_OP_CIPHER_SERVER_PREFERENCE);
 
     WSS_log_trace("Disable use of session and ticket cache and resumption");
     wolfSSL_CTX_set_session_cache_mode(server->ssl_ctx, SSL_SESS_CACHE_OFF);
-- 
2.43.0


From 042d0a2077c3a1d0d46cdebcf66223b01bb8828a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:22 +0000
Subject: [PATCH 46/57] fix: a list of ciphers that could not be set was
 ignored in favour of the default

---
 src/ssl.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ssl.c b/src/ssl.c
index 669f9ec..2c4232d 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -156,13 +156,21 @@ wss_error_t WSS_http_ssl(wss_server_t *server) {
 
     if ( NULL != server->config->ssl_cipher_list ) {
         WSS_log_trace("Setting cipher list");
-        SSL_CTX_set_cipher_list(server->ssl_ctx, server->config->ssl_cipher_list);
+        if ( unlikely(SSL_SUCCESS != SSL_CTX_set_cipher_list(server->ssl_ctx, server->config->ssl_cipher_list)) ) {
+            ERR_error_string_n(ERR_get_error(), error, error_size);
+            WSS_log_error("Unable to set cipher list: %s", error);
+            return WSS_SSL_CTX_ERROR;
+        }
     }
 
     if ( NULL != server->config->ssl_cipher_suites ) {
 #if ! defined(LIBRESSL_VERSION_NUMBER) && ! defined(OPENSSL_IS_BORINGSSL)
         WSS_log_trace("Setting cipher suites");
-        SSL_CTX_set_ciphersuites(server->ssl_ctx, server->config->ssl_cipher_suites);
+        if ( unlikely(SSL_SUCCESS != SSL_CTX_set_ciphersuites(server->ssl_ctx, server->config->ssl_cipher_suites)) ) {
+            ERR_error_string_n(ERR_get_error(), error, error_size);
+            WSS_log_error("Unable to set cipher suites: %s", error);
+            return WSS_SSL_CTX_ERROR;
+        }
 #else
         if ( NULL != server->config->ssl_cipher_list ) {
             char list[strlen(server->config->ssl_cipher_list)+strlen(server->config->ssl_cipher_list)+2];
@@ -286,7 +294,11 @@ wss_error_t WSS_http_ssl(wss_server_t *server) {
 
     if ( NULL != server->config->ssl_cipher_list ) {
         WSS_log_trace("Setting cipher list");
-        wolfSSL_CTX_set_cipher_list(server->ssl_ctx, server->config->ssl_cipher_list);
+        if ( unlikely(SSL_SUCCESS != wolfSSL_CTX_set_cipher_list(server->ssl_ctx, server->config->ssl_cipher_list)) ) {
+            wolfSSL_ERR_error_string_n(wolfSSL_ERR_get_error(), error, error_size);
+            WSS_log_error("Unable to set cipher list: %s", error);
+            return WSS_SSL_CTX_ERROR;
+        }
     }
 
     if ( NULL != server->config->ssl_cipher_suites ) {
-- 
2.43.0


From 7ed5005adff72d3efaba7a352975d7540e5591f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:09 +0000
Subject: [PATCH 47/57] fix: a failing start freed the HTTP instance while its
 threads were running

---
 src/server.c | 90 ++++++++++++++++++++++++++++++++--------------------
 1 file changed, 55 insertions(+), 35 deletions(-)

diff --git a/src/server.c b/src/server.c
index 4a0616c..c9a745a 100644
--- a/src/server.c
+++ b/src/server.c
@@ -313,6 +313,52 @@ static int WSS_server_free(wss_server_t *server) {
     return result;
 }
 
+/**
+ * Function that ends a server which was unable to start after the threads of its
+ * HTTP instance had been started.
+ *
+ * @param   http        [wss_server_t *]    "The HTTP instance, which is running"
+ * @param   https       [wss_server_t *]    "The HTTPS instance or NULL"
+ * @param   https_running [bool]            "Whether the HTTPS instance is running"
+ * @return 	            [int]               "EXIT_FAILURE"
+ */
+static int WSS_server_abort(wss_server_t *http, wss_server_t *https, bool https_running) {
+    int n;
+
+    WSS_server_set_state(HALT_ERROR);
+    do {
+        n = write(close_pipefd[1], "HALT", 5);
+    } while ( unlikely(n < 0 && errno == EINTR) );
+
+    pthread_join(http->thread_id, NULL);
+    if (https_running) {
+        pthread_join(https->thread_id, NULL);
+    }
+
+    WSS_http_server_stop(http);
+    if (NULL != https) {
+        WSS_http_server_stop(https);
+    }
+
+    WSS_session_delete_all();
+
+    WSS_poll_close(http);
+    WSS_server_free(http);
+    if (NULL != https) {
+        if (https_running) {
+            WSS_poll_close(https);
+        }
+        WSS_server_free(https);
+    }
+
+    WSS_destroy_subprotocols();
+    WSS_destroy_extensions();
+    WSS_session_destroy_lock();
+    pthread_mutex_destroy(&state.lock);
+
+    return EXIT_FAILURE;
+}
+
 /**
  * Starts the websocket server.
  *
@@ -499,15 +545,9 @@ int WSS_server_start(wss_config_t *config) {
         WSS_log_trace("Allocating memory for HTTPS instance");
 
         if ( unlikely(NULL == (https = (wss_server_t *) WSS_malloc(sizeof(wss_server_t)))) ) {
-            WSS_server_free(http);
-            WSS_session_destroy_lock();
-            WSS_destroy_subprotocols();
-            WSS_destroy_extensions();
-            pthread_mutex_destroy(&state.lock);
-
             WSS_log_fatal("Unable to allocate https server structure");
 
-            return EXIT_FAILURE;
+            return WSS_server_abort(http, NULL, false);
         }
 
         if ( unlikely(0 != (err = pthread_mutex_init(&https->lock, NULL))) ) {
@@ -518,49 +558,29 @@ int WSS_server_start(wss_config_t *config) {
 
         WSS_log_trace("Creating HTTPS Instance");
 
-        https->config = config;
-        https->port   = config->port_https;
+        https->config  = config;
+        https->port    = config->port_https;
+        https->fd      = -1;
+        https->poll_fd = -1;
         if ( unlikely(WSS_SUCCESS != WSS_http_ssl(https)) ) {
-            WSS_server_free(https);
-            WSS_server_free(http);
-            WSS_session_destroy_lock();
-            WSS_destroy_subprotocols();
-            WSS_destroy_extensions();
-            pthread_mutex_destroy(&state.lock);
-
             WSS_log_fatal("Unable to establish ssl context");
 
-            return EXIT_FAILURE;
+            return WSS_server_abort(http, https, false);
         }
 
         if ( unlikely(WSS_SUCCESS != WSS_http_server(https)) ) {
-            WSS_server_free(https);
-            WSS_server_free(http);
-            WSS_session_destroy_lock();
-            WSS_destroy_subprotocols();
-            WSS_destroy_extensions();
-            pthread_mutex_destroy(&state.lock);
-
             WSS_log_fatal("Unable to initialize https server");
 
-            return EXIT_FAILURE;
+            return WSS_server_abort(http, https, false);
         }
     }
 
     WSS_log_trace("Creating HTTP cleanup thread");
     
     if ( unlikely(pthread_create(&cleanup_thread_id, NULL, WSS_cleanup, NULL) != 0) ) {
-        if (ssl) {
-            WSS_server_free(https);
-        }
-        WSS_server_free(http);
-        WSS_session_destroy_lock();
-        WSS_destroy_subprotocols();
-        WSS_destroy_extensions();
-        pthread_mutex_destroy(&state.lock);
-
         WSS_log_fatal("Unable to create cleanup thread");
-        return EXIT_FAILURE;
+
+        return WSS_server_abort(http, https, ssl);
     }
 
     WSS_log_trace("Joining server threads");
-- 
2.43.0


From a005700785793ff50adae74d4a880487225f54db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:49 +0000
Subject: [PATCH 48/57] fix: an event of an earlier session reached a session
 that was still being set up

The filedescriptor is reused, and a session can be found as soon as it is
added. A worker that took its lock before the accepting thread did answered
the request without a ringbuffer, or deleted the session that was still in use.
---
 src/worker.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/worker.c b/src/worker.c
index 897b0ae..c169932 100644
--- a/src/worker.c
+++ b/src/worker.c
@@ -1716,6 +1716,15 @@ void WSS_work(void *args) {
 
     pthread_mutex_lock(&session->lock);
 
+    // The event stems from an earlier session using the same filedescriptor, this
+    // one is still to be set up by the thread that accepted it
+    if ( unlikely(NULL == session->ringbuf) ) {
+        WSS_log_trace("Session %d is not connected yet", fd);
+        pthread_mutex_unlock(&session->lock);
+        WSS_session_jobs_dec(session);
+        return;
+    }
+
     pthread_mutex_lock(&session->lock_io);
     session->working = true;
     session->event = READ;
-- 
2.43.0


From 15f151643bb91a541143b2f336c10347f1c2a8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:55 +0000
Subject: [PATCH 49/57] fix: a failing TLS handshake marked the session while
 the timeout thread looked at it

---
 src/ssl.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ssl.c b/src/ssl.c
index 2c4232d..f214056 100644
--- a/src/ssl.c
+++ b/src/ssl.c
@@ -596,7 +596,10 @@ void WSS_ssl_handshake(wss_server_t *server, wss_session_t *session) {
         }
 #endif
 
+        // The thread that checks for timeouts may be looking at the session
+        pthread_mutex_lock(&session->lock_io);
         session->closing = true;
+        pthread_mutex_unlock(&session->lock_io);
 
         return;
     }
-- 
2.43.0


From 00e74fcde72e4aa7105ac6ba5613971e34b89cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:11 +0000
Subject: [PATCH 50/57] fix: a server on any free port crashed composing the
 pattern of allowed URIs

The length of port 0 was computed as its logarithm.
---
 src/http.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http.c b/src/http.c
index bc29533..9c56b64 100644
--- a/src/http.c
+++ b/src/http.c
@@ -63,7 +63,7 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
 
     request_uri_length += strlen(REQUEST_URI)*sizeof(char)-12*sizeof(char);
     request_uri_length += ssl*sizeof(char);
-    request_uri_length += (log10(port)+1)*sizeof(char);
+    request_uri_length += (port > 0 ? log10(port)+1 : 1)*sizeof(char);
     request_uri_length += sum_host_length*sizeof(char);
     request_uri_length += sum_path_length*sizeof(char);
     request_uri_length += sum_query_length*sizeof(char);
-- 
2.43.0


From a7623c166e9d895f9bebcd3720198ee8c038cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:11 +0000
Subject: [PATCH 51/57] fix: an empty string as the only path or query crashed
 the server at its start

Its pattern was written to a string literal. An empty string alone is a
list like any other now, i.e. it does not allow every URI.
---
 src/http.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/http.c b/src/http.c
index 9c56b64..43bc125 100644
--- a/src/http.c
+++ b/src/http.c
@@ -57,7 +57,7 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
     }
     sum_query_length += MAX(config->queries_length-1, 0);
 
-    if (sum_host_length+sum_path_length+sum_query_length == 0) {
+    if (config->hosts_length == 0 && config->paths_length == 0 && config->queries_length == 0) {
         return NULL;
     }
 
@@ -74,15 +74,15 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
         s = "s";
     }
 
-    if ( unlikely(sum_host_length > 0 && NULL == (host = WSS_malloc(sum_host_length+1))) ) {
+    if ( unlikely(config->hosts_length > 0 && NULL == (host = WSS_malloc(sum_host_length+1))) ) {
         return NULL;
     }
 
-    if ( unlikely(sum_path_length > 0 && NULL == (path = WSS_malloc(sum_path_length+1))) ) {
+    if ( unlikely(config->paths_length > 0 && NULL == (path = WSS_malloc(sum_path_length+1))) ) {
         return NULL;
     }
 
-    if ( unlikely(sum_query_length > 0 && NULL == (query = WSS_malloc(sum_query_length+1))) ) {
+    if ( unlikely(config->queries_length > 0 && NULL == (query = WSS_malloc(sum_query_length+1))) ) {
         return NULL;
     }
 
@@ -118,15 +118,15 @@ static char *generate_request_uri(wss_config_t * config, bool ssl, int port) {
 
     sprintf(request_uri, REQUEST_URI, s, host, port, path, query, query);
 
-    if ( likely(strlen(host) > 0) ) {
+    if ( likely(config->hosts_length > 0) ) {
         WSS_free((void **) &host);
     }
 
-    if ( likely(strlen(path) > 0) ) {
+    if ( likely(config->paths_length > 0) ) {
         WSS_free((void **) &path);
     }
 
-    if ( likely(strlen(query) > 0) ) {
+    if ( likely(config->queries_length > 0) ) {
         WSS_free((void **) &query);
     }
 
-- 
2.43.0


From e6d3f8212d1cccc1cdefc26fe67a56635b7df884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:11 +0000
Subject: [PATCH 52/57] fix: a large read buffer overflowed the stack of the
 poll event loop

The bytes of the rearm pipe were read to an array on the stack of the size
of the configured buffer.
---
 src/event.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/event.c b/src/event.c
index fd7fc49..a81f689 100644
--- a/src/event.c
+++ b/src/event.c
@@ -66,13 +66,13 @@ static inline void rearm(wss_server_t *server) {
  */
 static inline void handle_rearm(wss_server_t *server) {
     int n;
-    char buf[server->config->size_buffer];
+    char buf[1024];
 
     WSS_log_trace("Handle rearm");
 
     if ( likely(server->rearm_pipefd[0] != -1 && server->rearm_pipefd[1] != -1) ) {
         do {
-            n = read(server->rearm_pipefd[0], buf, server->config->size_buffer);
+            n = read(server->rearm_pipefd[0], buf, sizeof(buf));
             if ( unlikely(n < 0) ) {
                 if ( likely(errno == EAGAIN || errno == EWOULDBLOCK) ) {
                     return;
-- 
2.43.0


From bfc1614ebb4c07d83789bae4c2be9a37901d8e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:11 +0000
Subject: [PATCH 53/57] fix: websocket versions beginning with or equal modulo
 2^32 to a supported one were accepted

---
 src/header.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/header.c b/src/header.c
index 3d3eb48..3c9e438 100644
--- a/src/header.c
+++ b/src/header.c
@@ -100,7 +100,13 @@ static inline char *header_list(char **lineptr, char **sepptr)
 }
 
 static inline void header_set_version(wss_header_t *header, char *v) {
-    int version = strtol(v, (char **) NULL, 10);
+    char *end;
+    long version = strtol(v, &end, 10);
+
+    // Neither is a number followed by anything else
+    if ( unlikely(*end != '\0') ) {
+        return;
+    }
 
     if ( likely(header->ws_version < version) ) {
         if ( unlikely(version == 4) ) {
-- 
2.43.0


From 76bc0260d609b84c5dbc3bc3bb361b885484889e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:24 +0000
Subject: [PATCH 54/57] fix: a header of an older protocol after the version
 made a valid request be refused

Whether WebSocket-Protocol, Sec-WebSocket-Key1 or Sec-WebSocket-Key2 were
ignored depended on the order of the headers.
---
 src/header.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/header.c b/src/header.c
index 3c9e438..b81c4ce 100644
--- a/src/header.c
+++ b/src/header.c
@@ -334,7 +334,10 @@ static enum HttpStatus_Code parse_header(int fd, wss_header_t *header, wss_confi
                 header->host = header_value(&lineptr);
             } else if ( line_length == strlen(WEBSOCKET_PROTOCOL_STRING) &&
                         strncasecmp(WEBSOCKET_PROTOCOL_STRING, line, line_length) == 0 ) {
-                header->ws_type = HIXIE75;
+                // Only of interest for requests without a version
+                if ( likely(header->ws_version == 0) ) {
+                    header->ws_type = HIXIE75;
+                }
                 if (NULL == header->ws_protocol) {
                     sep = header_list(&lineptr, &sepptr);
                     while (NULL != sep) {
@@ -347,11 +350,15 @@ static enum HttpStatus_Code parse_header(int fd, wss_header_t *header, wss_confi
                 }
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY1) &&
                         strncasecmp(SEC_WEBSOCKET_KEY1, line, line_length) == 0 ) {
-                header->ws_type = HIXIE76;
+                if ( likely(header->ws_version == 0) ) {
+                    header->ws_type = HIXIE76;
+                }
                 header->ws_key1 = header_value(&lineptr);
             } else if ( line_length == strlen(SEC_WEBSOCKET_KEY2) &&
                         strncasecmp(SEC_WEBSOCKET_KEY2, line, line_length) == 0 ) {
-                header->ws_type = HIXIE76;
+                if ( likely(header->ws_version == 0) ) {
+                    header->ws_type = HIXIE76;
+                }
                 header->ws_key2 = header_value(&lineptr);
             }
         }
-- 
2.43.0


From e017028c983cd85e1a4d64d114c4ec741cf8c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:53 +0000
Subject: [PATCH 55/57] fix: signals put off the cleanup of timed out clients
 for as long as they came

---
 src/server.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index c9a745a..58ae84e 100644
--- a/src/server.c
+++ b/src/server.c
@@ -163,7 +163,9 @@ void *WSS_cleanup() {
     wss_error_t err;
     struct pollfd fds[1];
     wss_server_t *server = servers.http;
+    struct timespec started, current;
     long int timeout = server->config->timeout_client;
+    long int left;
 
 #ifdef USE_RPMALLOC
     rpmalloc_thread_initialize();
@@ -179,13 +181,25 @@ void *WSS_cleanup() {
         WSS_log_info("Cleanup thread will run every %ld milliseconds", timeout);
     }
 
+    left = timeout;
+    clock_gettime(CLOCK_MONOTONIC, &started);
+
     while ( likely(running()) ) {
-        n = poll(fds, 1, timeout);
+        n = poll(fds, 1, left);
         if ( unlikely(n < 0 && errno != EINTR) ) {
 #ifdef USE_RPMALLOC
             rpmalloc_thread_finalize();
 #endif
             pthread_exit( ((void *) ((uintptr_t)WSS_CLEANUP_ERROR)) );
+        } else if ( unlikely(n < 0) ) {
+            // Signals must not put off the cleanup
+            if ( likely(timeout >= 0) ) {
+                clock_gettime(CLOCK_MONOTONIC, &current);
+                left = timeout - ((current.tv_sec - started.tv_sec) * 1000 + (current.tv_nsec - started.tv_nsec) / 1000000);
+                if (left < 0) {
+                    left = 0;
+                }
+            }
         } else if ( likely(n == 0) ) {
             WSS_log_info("Pings clients and cleanup timedout ones");
             
@@ -196,6 +210,9 @@ void *WSS_cleanup() {
 #endif
                 pthread_exit( ((void *) &err) );
             }
+
+            left = timeout;
+            clock_gettime(CLOCK_MONOTONIC, &started);
         }
     }
 
-- 
2.43.0


From 7eecd4bdb15a1779d2ab5250dc1603639c940b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:00 +0000
Subject: [PATCH 56/57] fix: the server aborted at its end when no file
 descriptor was left to load libgcc for pthread_exit

---
 src/pool.c   |  1 -
 src/server.c | 14 +++++++-------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/pool.c b/src/pool.c
index 8525c08..1a5dd9d 100644
--- a/src/pool.c
+++ b/src/pool.c
@@ -332,6 +332,5 @@ static void *threadpool_thread(void *arguments) {
     rpmalloc_thread_finalize();
 #endif
 
-    pthread_exit(NULL);
     return NULL;
 }
diff --git a/src/server.c b/src/server.c
index 58ae84e..007cb9f 100644
--- a/src/server.c
+++ b/src/server.c
@@ -156,7 +156,7 @@ void WSS_server_set_max_fd(wss_server_t *server, int fd) {
  * Cleanup client sessions, that is, closes connections to clients which is 
  * timedout based on the servers timeout_client setting.
  *
- * @return 	pthread_exit 	[void *] 	"0 if successfull and otherwise <0"
+ * @return 	            	[void *] 	"0 if successfull and otherwise <0"
  */
 void *WSS_cleanup() {
     int n;
@@ -190,7 +190,7 @@ void *WSS_cleanup() {
 #ifdef USE_RPMALLOC
             rpmalloc_thread_finalize();
 #endif
-            pthread_exit( ((void *) ((uintptr_t)WSS_CLEANUP_ERROR)) );
+            return ((void *) ((uintptr_t)WSS_CLEANUP_ERROR));
         } else if ( unlikely(n < 0) ) {
             // Signals must not put off the cleanup
             if ( likely(timeout >= 0) ) {
@@ -208,7 +208,7 @@ void *WSS_cleanup() {
 #ifdef USE_RPMALLOC
                 rpmalloc_thread_finalize();
 #endif
-                pthread_exit( ((void *) &err) );
+                return ((void *) ((uintptr_t)err));
             }
 
             left = timeout;
@@ -221,7 +221,7 @@ void *WSS_cleanup() {
 #ifdef USE_RPMALLOC
     rpmalloc_thread_finalize();
 #endif
-    pthread_exit( ((void *) ((uintptr_t)WSS_SUCCESS)) );
+    return ((void *) ((uintptr_t)WSS_SUCCESS));
 }
 
 /**
@@ -229,7 +229,7 @@ void *WSS_cleanup() {
  * threadpools.
  *
  * @param 	arg				[void *] 	"Is in fact a wss_server_t instance"
- * @return 	pthread_exit 	[void *] 	"0 if successfull and otherwise <0"
+ * @return 	            	[void *] 	"0 if successfull and otherwise <0"
  */
 void *WSS_server_run(void *arg) {
     wss_error_t err;
@@ -252,7 +252,7 @@ void *WSS_server_run(void *arg) {
 #ifdef USE_RPMALLOC
             rpmalloc_thread_finalize();
 #endif
-            pthread_exit( ((void *) err) );
+            return ((void *) err);
         }
     }
 
@@ -266,7 +266,7 @@ void *WSS_server_run(void *arg) {
     rpmalloc_thread_finalize();
 #endif
 
-    pthread_exit( ((void *) ((uintptr_t)WSS_SUCCESS)) );
+    return ((void *) ((uintptr_t)WSS_SUCCESS));
 }
 
 /**
-- 
2.43.0


From 09d25d4951bca38c916d330c8d2f1bdfbfc40468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:11 +0000
Subject: [PATCH 57/57] fix: a start that failed for lack of descriptors for
 its pipes left no reason in the log

---
 src/event.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/event.c b/src/event.c
index a81f689..6382050 100644
--- a/src/event.c
+++ b/src/event.c
@@ -185,7 +185,7 @@ wss_error_t WSS_poll_init(wss_server_t *server) {
         WSS_log_trace("Creating close pipe file descriptors");
 
         if ( unlikely(pipe(close_pipefd) == -1) ) {
-            WSS_log_trace("Unable to create close pipe file descriptors: %s", strerror(errno));
+            WSS_log_error("Unable to create close pipe file descriptors: %s", strerror(errno));
             return WSS_POLL_PIPE_ERROR;
         }
 
@@ -216,7 +216,7 @@ wss_error_t WSS_poll_init(wss_server_t *server) {
     WSS_log_trace("Creating arm pipe file descriptors");
 
     if ( unlikely(pipe(server->rearm_pipefd) == -1) ) {
-        WSS_log_trace("Unable to create arm pipe file descriptors: %s", strerror(errno));
+        WSS_log_error("Unable to create arm pipe file descriptors: %s", strerror(errno));
         return WSS_POLL_PIPE_ERROR;
     }
 
@@ -597,7 +597,7 @@ wss_error_t WSS_poll_init(wss_server_t *server) {
         WSS_log_trace("Creating close pipe file descriptors");
 
         if ( unlikely(pipe(close_pipefd) == -1) ) {
-            WSS_log_trace("Unable to create close pipe file descriptors: %s", strerror(errno));
+            WSS_log_error("Unable to create close pipe file descriptors: %s", strerror(errno));
             return WSS_POLL_PIPE_ERROR;
         }
 
@@ -621,7 +621,7 @@ wss_error_t WSS_poll_init(wss_server_t *server) {
     WSS_log_trace("Creating arm pipe file descriptors");
 
     if ( unlikely(pipe(server->rearm_pipefd) == -1) ) {
-        WSS_log_trace("Unable to create arm pipe file descriptors: %s", strerror(errno));
+        WSS_log_error("Unable to create arm pipe file descriptors: %s", strerror(errno));
         return WSS_POLL_PIPE_ERROR;
     }
 
@@ -920,7 +920,7 @@ wss_error_t WSS_poll_init(wss_server_t *server) {
         WSS_log_trace("Creating close pipe file descriptors");
 
         if ( unlikely(pipe(close_pipefd) == -1) ) {
-            WSS_log_trace("Unable to create close pipe file descriptors: %s", strerror(errno));
+            WSS_log_error("Unable to create close pipe file descriptors: %s", strerror(errno));
             return WSS_POLL_PIPE_ERROR;
         }
 
@@ -942,7 +942,7 @@ wss_error_t WSS_poll_init(wss_server_t *server) {
     WSS_log_trace("Creating arm pipe file descriptors");
 
     if ( unlikely(pipe(server->rearm_pipefd) == -1) ) {
-        WSS_log_trace("Unable to create arm pipe file descriptors: %s", strerror(errno));
+        WSS_log_error("Unable to create arm pipe file descriptors: %s", strerror(errno));
         return WSS_POLL_PIPE_ERROR;
     }
 
-- 
2.43.0

