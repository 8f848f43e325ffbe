#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

NOSRV = "The unit tests never execute the event loop, workers, sessions, ring buffer or message paths; "

p("C01", "Echo: every message returns once, intact, in order, in well-formed frames",
  "On a connection served by the echo subprotocol (the default), every complete text or binary message a client sends comes back exactly once, with the same type and the same bytes, in sending order, whatever its length, its split into fragments, its masking keys, the way the bytes are cut into TCP segments, the number of messages pipelined and the control frames in between. Every frame the server sends is well formed: unmasked, reserved bits clear unless an extension set them, the shortest length encoding, no frame larger than the configured frame size, control frames final and at most 125 bytes, and the frames of one message are one data opcode followed by continuations and a single final bit.",
  ["inputs", "histories", "schedules", "configurations"],
  "all message lengths within the limits, fragmentations, masks, segmentations, pipelining depths, interleavings of control frames, frame-size settings and concurrent connections",
  NOSRV + "they test frame parsing on about 30 fixed frames.",
  ["src/worker.c", "src/frame.c", "src/message.c", "src/ringbuf.c", "subprotocols/echo/echo.c", "src/event.c", "src/session.c"],
  [("incremental frame parse and reassembly across reads", "src/worker.c WSS_read"), ("outgoing framing", "src/frame.c WSS_create_frames, WSS_stringify_frames"), ("per-session message queue and partial writes", "src/message.c, src/worker.c WSS_write")],
  ["bytes on the client socket"])

p("C02", "Frame-level protocol violations are rejected with the right close code",
  "An established connection that receives a frame RFC 6455 forbids (unmasked, reserved bits without an extension, unknown opcode, fragmented or over-long control frame, stray or missing continuation, one-byte close body, illegal close status) or one beyond the configured frame or fragment limits is answered with a close frame carrying the matching status (1002, 1003 for an unknown opcode, 1009 for too large) and is then closed; nothing of the offending message is delivered to the application, and complete messages sent before it are still served. A byte stream without a violation is never closed with an error.",
  ["inputs", "histories", "configurations"],
  "every frame header bit pattern, opcode, length form, close status 0..65535, position of the violation in a stream and segmentation of it",
  NOSRV + "no test sends an invalid frame to a connection.",
  ["src/worker.c", "src/frame.c", "include/frame.h"],
  [("frame validation chain", "src/worker.c WSS_read"), ("header decode", "src/frame.c WSS_parse_frame")],
  ["close frame and end of stream on the client socket"])

p("C03", "Text is accepted if and only if it is valid UTF-8",
  "A text message, however it is fragmented, is delivered if and only if its bytes are valid UTF-8 (no overlong forms, no surrogates, nothing above U+10FFFF, no truncated sequence), and otherwise the connection is closed with status 1007; the same decision applies to the reason text of a received close frame, and binary messages are never checked.",
  ["inputs"],
  "all byte strings, of any length and alignment, with the invalid sequence at any offset, split at any byte by fragmentation",
  NOSRV + "the UTF-8 validator, which switches between vector and scalar code by length and offset, is not tested at all.",
  ["src/utf8.c", "include/utf8.h", "src/worker.c"],
  [("vectorised validator with scalar tail", "src/utf8.c utf8_check"), ("call sites", "src/worker.c WSS_read")],
  ["validator result", "close code on the client socket"])

p("C04", "A valid opening handshake is answered with the correct 101 response",
  "For every well-formed RFC 6455 (version 13, and the HyBi versions 7 and 8) upgrade request that the configuration admits, the server replies with exactly one HTTP 101 response whose Sec-WebSocket-Accept equals base64(SHA-1(key + GUID)), with Upgrade and Connection headers, and with an empty line and no stray bytes before the first frame. The answer does not depend on header order, header-name case, optional white space after the colon, unknown headers, further tokens in the Connection header, or how the request is cut into TCP segments.",
  ["inputs", "schedules"],
  "all keys, header permutations, letter cases, white-space choices, additional headers and segmentations",
  "the tests parse a handful of complete headers in memory; none sees a response or a request that arrives in pieces.",
  ["src/header.c", "src/worker.c", "src/ssl.c", "src/sha1.c", "src/b64.c", "include/worker.h"],
  [("header parse and validation", "src/header.c WSS_parse_header, WSS_upgrade_header"), ("response assembly", "src/worker.c handshake_response"), ("accept key", "src/ssl.c WSS_base64_encode_sha1")],
  ["HTTP response bytes on the client socket"])

p("C05", "Handshake admission follows the configured origins, hosts, paths and queries",
  "A connection is upgraded if and only if its Origin, Host, path and query parameters are allowed by the configuration (an empty list of origins or hosts allows every one; with hosts, paths and queries all unconfigured every URI is allowed, otherwise '/' and an empty query are always allowed and further paths and queries if an extended regular expression listed for them matches the whole component; hosts and origins are compared exactly) and it asks for a websocket upgrade with a supported version. Otherwise it is refused without reaching any subprotocol: 403 for the origin, 400 for the host, 404 for the path or query, 426 for an absolute http(s) URI and for a missing or wrong upgrade, connection or key, and 501 for an unsupported version.",
  ["inputs", "configurations"],
  "all policy configurations and all request URIs, hosts, origins, versions and upgrade tokens, including near misses such as prefixes, suffixes, absolute URIs, missing headers and several query parameters",
  "the tests use one configuration and call the header functions on a few fixed requests.",
  ["src/header.c", "src/http.c", "include/http.h", "src/str.c", "src/config.c"],
  [("request URI expression built from configuration", "src/http.c WSS_http_regex_init"), ("membership test", "src/str.c strinarray"), ("policy chain", "src/header.c WSS_upgrade_header")],
  ["status code on the client socket", "subprotocol connect callback"])

p("C06", "Malformed or oversized HTTP requests get one well-formed error response",
  "Whatever bytes a client sends before it is upgraded, the server stays up and either waits for the rest of the request or answers with exactly one syntactically valid HTTP response whose Content-Length equals its body length and whose status names the fault: 400 malformed, 405 for a method other than GET, 505 for an unknown HTTP version, 414 and 413/431 for a URI, headers or total request beyond the configured sizes. A request ends at its first empty line, and the outcome does not depend on how the request is cut into TCP segments.",
  ["inputs", "configurations"],
  "all byte strings sent before the upgrade, including truncated, empty-valued and repeated headers, and all size settings",
  "the tests parse a few fixed malformed headers in memory, never produce a response and never split one.",
  ["src/header.c", "src/worker.c", "include/httpstatuscodes.h"],
  [("request accumulation and limits", "src/worker.c handshake"), ("line and header parser", "src/header.c WSS_parse_header"), ("error bodies", "src/worker.c http_response, upgrade_response")],
  ["HTTP response bytes on the client socket"])

p("C07", "Broadcast delivers each message exactly once to every other client",
  "Each message sent by a client of the broadcast subprotocol is received exactly once, intact and with its type, by every other client that is connected to that subprotocol from before the message was sent until after it was delivered, and never by its sender or by clients of other subprotocols. Every receiver sees the messages of one sender in sending order, whatever other clients send, join or leave at the same time.",
  ["schedules", "histories"],
  "all interleavings of senders, receivers, joins, leaves and worker threads",
  NOSRV + "the broadcast plugin is only loaded, never used with two clients.",
  ["subprotocols/broadcast/broadcast.c", "src/message.c", "src/session.c", "src/ringbuf.c", "src/worker.c"],
  [("client table", "subprotocols/broadcast/broadcast.c"), ("cross-session send", "src/message.c WSS_message_send"), ("session lookup and job counting", "src/session.c")],
  ["per-client receive logs"])

p("C08", "Each accepted client is announced and withdrawn exactly once to its subprotocol",
  "For every connection that completes the handshake the chosen subprotocol is told of the connection exactly once (with its descriptor, peer address and port, requested path and cookies), before any message of that connection, and of its end exactly once, after its last message, however the connection ends: close handshake, abrupt disconnect, protocol error, timeout or server shutdown. Connections that never complete the handshake are never announced.",
  ["histories", "schedules", "fault_sequences"],
  "all ways and moments of connecting, talking and disconnecting, with any number of concurrent clients and reused descriptors",
  NOSRV + "no test opens a connection.",
  ["src/worker.c", "src/session.c", "src/server.c", "src/subprotocols.c"],
  [("connect notification", "src/worker.c handshake"), ("close notification", "src/worker.c WSS_disconnect, src/session.c"), ("disconnect-once latch", "src/session.c WSS_session_is_disconnecting")],
  ["callbacks recorded by a test subprotocol plugin"])

p("C09", "No client input makes the server commit a memory error or undefined behaviour",
  "Whatever bytes clients send (HTTP, websocket frames, compressed data, garbage, truncations) and whenever they disconnect, the server never reads or writes outside an object, uses freed or uninitialised memory, frees twice, or executes C undefined behaviour, and it does not terminate.",
  ["inputs", "histories", "schedules"],
  "all client byte streams, segmentations and disconnect moments, with and without the compression extension",
  NOSRV + "no test runs under a sanitizer or sends hostile input.",
  ["src/worker.c", "src/frame.c", "src/header.c", "src/session.c", "src/message.c", "src/utf8.c", "extensions/permessage-deflate/permessage-deflate.c"],
  [("length and bounds checks in the parsers", "src/frame.c, src/header.c"), ("ownership of messages, frames and sessions", "src/worker.c, src/session.c")],
  ["AddressSanitizer and UndefinedBehaviorSanitizer reports", "process exit status"])

p("C10", "Concurrent clients never cause a data race, deadlock or lost wake-up",
  "With any number of clients connecting, sending, receiving broadcasts and disconnecting at the same time on several worker threads, shared state is accessed only under synchronisation, no set of threads blocks forever, and every ready connection is eventually served.",
  ["schedules"],
  "all interleavings of worker threads, poll threads and the cleanup thread under concurrent connects, broadcasts, pings, timeouts and disconnects",
  NOSRV + "nothing runs two threads.",
  ["src/worker.c", "src/session.c", "src/message.c", "src/server.c", "src/event.c", "src/ringbuf.c", "src/pool.c", "subprotocols/broadcast/broadcast.c"],
  [("session lock and job counter", "src/session.c"), ("one-shot rearming", "src/event.c"), ("multi-producer ring buffer", "src/ringbuf.c")],
  ["ThreadSanitizer reports", "progress of every client"])

p("C11", "permessage-deflate is transparent: messages survive both directions intact",
  "With permessage-deflate negotiated, under every accepted combination of window sizes and context takeover settings, a conforming peer that compresses its messages and decompresses the server's sees exactly the behaviour of an uncompressed connection: every message, of any size and content, compressed or not, fragmented or not, alone or in a sequence, is delivered and returned byte for byte. Compressed messages carry the compression bit on their first frame only.",
  ["inputs", "histories", "configurations"],
  "all message contents (empty, tiny, incompressible, highly compressible), sizes, sequences, fragmentations, compressor flush styles and negotiated parameters",
  "the tests only load the extension and call its entry points with trivial input.",
  ["extensions/permessage-deflate/permessage-deflate.c", "src/worker.c", "src/message.c", "src/frame.c"],
  [("inflate and deflate of frame sequences", "extensions/permessage-deflate/permessage-deflate.c inFrames, outFrames")],
  ["decoded messages on the client socket"])

p("C12", "Extension negotiation never accepts what was not offered or not valid",
  "For every Sec-WebSocket-Extensions offer, the server's answer is a valid permessage-deflate response to one of the client's offers (no unknown, repeated or out-of-range parameter accepted, window sizes within the offered bounds, nothing the client did not allow, and no more than the extension is configured to allow) or contains no extension, and the connection then behaves according to that answer. Data that is compressed without negotiation, has the compression bit where it is not allowed, or does not decompress fails the connection instead of being delivered.",
  ["inputs", "configurations"],
  "all offer strings: parameter sets, values, orders, duplicates, white space, several offers and several headers; all placements of reserved bits and all corrupt compressed payloads",
  "the tests call the negotiation entry point with a few fixed parameter strings.",
  ["extensions/permessage-deflate/permessage-deflate.c", "src/header.c", "src/extensions.c", "src/worker.c"],
  [("parameter negotiation", "extensions/permessage-deflate/permessage-deflate.c onOpen"), ("offer splitting", "src/header.c")],
  ["101 response header", "behaviour of the following frames"])

p("C13", "Pings are answered and close handshakes are completed correctly",
  "Every ping is answered by one pong with the same payload, pings of one connection in order, pongs are ignored, and a ping between the fragments of a message does not disturb that message. A received close frame is answered by exactly one close frame with the same status (or none if it had none), after which the server sends nothing more and closes the connection.",
  ["inputs", "histories"],
  "all ping payloads and positions, all legal close statuses and reasons, any amount of data before or after the close frame, any segmentation",
  NOSRV + "control frames are only built and parsed in isolation.",
  ["src/worker.c", "src/frame.c", "src/message.c"],
  [("pong construction", "src/frame.c WSS_pong_frame"), ("closing detection on write", "src/worker.c WSS_write")],
  ["frames and end of stream on the client socket"])

p("C14", "Idle clients are pinged and, if silent, closed after the configured time",
  "With a client timeout configured, a connection that stays silent past the timeout is told so with a close frame (1013) and closed within about one check interval, including one that never finishes its handshake, while a connection that keeps sending, or answers the server's pings where at least two are configured per timeout, stays open. The server's pings are well-formed frames that arrive about as often as configured and never inside another frame, and with no client timeout nothing is closed for idleness.",
  ["histories", "schedules", "configurations"],
  "all timeout and ping settings, moments of activity, and traffic being written when the timer fires",
  NOSRV + "no test waits for a timer.",
  ["src/server.c", "src/session.c", "src/worker.c"],
  [("cleanup thread", "src/server.c WSS_cleanup"), ("activity stamp", "src/worker.c WSS_work")],
  ["ping and close frames with times on the client socket"])

p("C15", "A slow reader gets an intact, gap-free stream or is disconnected",
  "When a client reads slower than data is produced for it, by echo or by broadcast, the bytes it eventually reads are a sequence of complete, uncorrupted messages in order with none missing, duplicated or interleaved; all of it arrives once it reads again, unless the server gives up on it by closing the connection. Delivery to other clients goes on meanwhile.",
  ["schedules", "histories", "configurations"],
  "all points at which the socket buffer fills, message sizes, queue sizes, reading speeds and mixes of control and data frames",
  NOSRV + "partial writes never happen in a test.",
  ["src/worker.c", "src/message.c", "src/ringbuf.c", "src/event.c", "src/ssl.c"],
  [("partial write bookkeeping", "src/worker.c WSS_write, src/ssl.c WSS_ssl_write_partial"), ("write rearming", "src/event.c WSS_poll_set_write")],
  ["bytes on the slow client's socket", "latency of the other clients"])

p("C16", "An interrupt shuts the server down promptly and cleanly in any state",
  "On SIGINT in any state (idle, clients connected, handshakes or messages half received, writes pending, broadcasts running, no file descriptor left) the server stops accepting, ends all connections, joins its threads, releases what it allocated and exits with status 0 within a bounded time. A later instance can listen on the same ports at once.",
  ["crash_points", "schedules", "histories"],
  "all moments of the interrupt relative to client activity, and repeated interrupts",
  NOSRV + "start-up and shutdown are not tested.",
  ["src/server.c", "src/main.c", "src/http.c", "src/pool.c", "src/session.c", "src/event.c"],
  [("signal handler and wake-up pipe", "src/server.c"), ("tear-down order", "src/server.c WSS_server_start"), ("pool drain", "src/pool.c threadpool_destroy")],
  ["exit status and time", "leak report at exit", "client sockets"])

p("C17", "Configuration files are loaded faithfully and bad ones are refused safely",
  "Loading a configuration file yields exactly the values it contains, with the documented defaults for absent keys, and the server then obeys them; a missing, truncated, syntactically wrong or ill-typed file leads to a clean refusal or to the default for that key, never to a crash, hang or memory error. Loading and freeing releases all memory.",
  ["inputs", "configurations"],
  "all JSON documents: any subset and order of keys, values of any type and size, truncations and mutations of valid files",
  "the tests load a few fixed files.",
  ["src/config.c", "src/json.c", "src/str.c", "include/config.h"],
  [("key-by-key extraction", "src/config.c WSS_config_load"), ("JSON parser", "src/json.c")],
  ["loaded values", "sanitizer reports"])

p("C18", "The thread pool runs every accepted task exactly once",
  "Each task the pool accepts is executed exactly once, on a pool thread, and tasks are started in the order accepted, none waiting while a thread of the pool has nothing to do; a full or stopping pool refuses a task instead of losing it, a graceful stop finishes all accepted tasks, an immediate stop waits only for running ones, and after the stop returns no task runs. Work handed over by the server while the queue is momentarily full is retried or reported, never silently dropped.",
  ["schedules", "histories"],
  "all interleavings of adding threads, workers and shutdown, all pool and queue sizes",
  "the pool has no test.",
  ["src/pool.c", "include/pool.h", "src/event.c"],
  [("bounded queue under a mutex and condition", "src/pool.c"), ("retry on a full queue", "src/event.c WSS_add_to_threadpool")],
  ["task execution log"])

p("C19", "The message ring buffer is a lossless multi-producer FIFO",
  "With any number of concurrent producers (up to the registered number) and one consumer, every item produced is consumed exactly once, after it was completely written, items of one producer in production order, space is never granted over items not yet released, and a producer that is alone at it is refused space only when granting it would reach items not yet released or when every producer record is in use.",
  ["schedules"],
  "all interleavings of acquire, produce, consume and release, ring sizes, request sizes and wrap-around positions",
  "the ring buffer has no test.",
  ["src/ringbuf.c", "include/ringbuf.h"],
  [("lock-free reservation and stable offset", "src/ringbuf.c")],
  ["consumed sequence"])

p("C20", "The allocator returns zeroed, aligned, non-overlapping memory across threads",
  "Memory obtained from the server's allocation layer is zero-filled and suitably aligned, never overlaps another live allocation, keeps its contents when resized (with new bytes zeroed), can be released by a different thread than the one that allocated it, and pointers are cleared on release; requests that cannot be satisfied, overflowing sizes included, return nothing, and released memory becomes available again. This holds for every size and any interleaving of threads starting, allocating, freeing and ending.",
  ["schedules", "histories", "inputs"],
  "all allocation, resize and free histories over all sizes and threads",
  "the tests make one or two allocations on one thread.",
  ["src/alloc.c", "src/rpmalloc.c", "include/alloc.h"],
  [("zeroing wrappers", "src/alloc.c"), ("span heaps and deferred cross-thread free", "src/rpmalloc.c")],
  ["contents of live blocks"])

p("C21", "SHA-1, base64 and hexadecimal helpers agree with their definitions",
  "For every input, of every length and given in any split into pieces, the SHA-1 digest, the base64 encoding and decoding and the hexadecimal encoding produced by the library equal the standard definitions, and decoding inverts encoding.",
  ["inputs"],
  "all byte strings and all ways of feeding them in pieces",
  "these helpers are executed by no test or only with one string.",
  ["src/sha1.c", "src/b64.c", "src/str.c", "src/ssl.c"],
  [("SHA-1 state machine", "src/sha1.c"), ("base64", "src/b64.c"), ("hex", "src/str.c bin2hex")],
  ["function results"])

p("C22", "JSON documents are parsed to the value they denote",
  "Every valid JSON document is parsed to the value it denotes (types, numbers, strings with all escapes, nesting, order, duplicate handling) and every broken one is refused with an error (comments, a comma before a closing bracket, unknown escapes and raw control characters are tolerated extras), without a crash, an out-of-bounds access or a leak, whatever the document's size and content.",
  ["inputs"],
  "all byte strings as documents, and all parser settings the server uses",
  "JSON is only exercised through a few valid configuration files.",
  ["src/json.c", "include/json.h"],
  [("two-pass parser", "src/json.c json_parse_ex")],
  ["parsed tree", "sanitizer reports"])

p("C23", "Secure connections behave exactly like plain ones",
  "With certificates configured, the secure port offers the same service as the plain one: handshake, echo, fragmentation, large and pipelined messages, broadcast between plain and secure clients, close and errors give the same results over TLS 1.2 and 1.3 for any record and TCP segmentation. A failed, aborted or plain-text handshake on the secure port ends only that connection.",
  ["inputs", "schedules", "fault_sequences"],
  "all TLS record and TCP segmentations, message sizes around the record size, partial handshakes, garbage and aborts",
  NOSRV + "no test opens a TLS connection.",
  ["src/ssl.c", "src/worker.c", "src/http.c", "src/session.c"],
  [("non-blocking TLS handshake, read and write", "src/ssl.c"), ("TLS tear-down", "src/ssl.c WSS_session_ssl_free")],
  ["decrypted bytes on the client socket", "service of other clients"])

p("C24", "No client can stop the server from serving the others",
  "However some clients behave (connecting and staying silent, sending half a request or half a frame, never reading, sending garbage, violating the protocol, disconnecting at any moment, or opening many connections), other clients are still accepted and their messages are served within a bounded time; and while none of its clients does anything, the server uses no processor time.",
  ["histories", "fault_sequences", "schedules"],
  "all mixes and moments of misbehaviour by any number of clients, in particular more than there are worker threads",
  NOSRV + "no test has two clients.",
  ["src/worker.c", "src/message.c", "src/event.c", "src/session.c", "src/server.c"],
  [("non-blocking sockets and one-shot events", "src/event.c"), ("no waiting on a peer", "src/message.c")],
  ["response time of a probing client"])

p("C25", "The subprotocol is the first one offered that is configured, else echo",
  "A client's messages are handled by the first subprotocol of its offer list that is configured, and the response names exactly that one; with no offer or none configured the echo subprotocol is used and none is named. Names are matched whole, lists may carry white space and be split over several headers, and each connection reaches only its own subprotocol.",
  ["inputs", "configurations"],
  "all offer lists (orders, white space, prefixes, duplicates, unknown names, several headers) and sets of configured subprotocols",
  "the tests look up two names in memory.",
  ["src/header.c", "src/subprotocols.c", "src/worker.c"],
  [("offer scan", "src/header.c"), ("plugin table", "src/subprotocols.c")],
  ["101 response header", "callbacks recorded by test plugins"])

p("C26", "The favicon is served byte for byte with correct metadata",
  "A GET for /favicon.ico is answered, when a favicon file is configured, by a 200 response whose body is exactly the file, whose Content-Length is its size and whose ETag is the SHA-1 of its content; without one (or with an unreadable or empty file) it is answered by 404, and the server keeps running.",
  ["inputs", "configurations"],
  "all file contents and sizes, including empty, binary and large files, and replacement of the file while the server runs",
  NOSRV + "no response is ever produced.",
  ["src/worker.c", "src/str.c", "src/ssl.c"],
  [("favicon response", "src/worker.c favicon_response"), ("file loading", "src/str.c strload")],
  ["HTTP response bytes on the client socket"])

p("C27", "Connections leave nothing behind: no memory, descriptor or job leaks",
  "After any history of connections, messages, rejected requests, protocol errors and disconnects, once the clients are gone the server holds no more descriptors, sessions or queued work than before, its memory does not grow with the number of past connections, and at shutdown nothing is left unreleased.",
  ["histories", "fault_sequences"],
  "all histories of complete, failed and aborted connections, with and without compression and TLS",
  NOSRV + "nothing measures resources.",
  ["src/worker.c", "src/session.c", "src/header.c", "src/frame.c", "src/message.c", "src/server.c", "extensions/permessage-deflate/permessage-deflate.c"],
  [("session tear-down", "src/session.c"), ("header, frame and message release", "src/header.c, src/frame.c, src/message.c")],
  ["LeakSanitizer report at exit", "open descriptors of the server process"])

p("C28", "Frame encoding and decoding are exact inverses within RFC 6455",
  "For every opcode, payload and frame-size limit, encoding a message into frames and decoding the bytes gives back the same frames, splitting never loses, adds or reorders payload bytes, and decoding reads exactly the bytes of one frame, unmasks it, and reports an incomplete frame as incomplete for every proper prefix without reading past the data.",
  ["inputs", "configurations"],
  "all opcodes, flag bits, masks, payload lengths across the 7, 16 and 64 bit forms, split limits and prefixes",
  "the tests decode and encode about thirty fixed frames.",
  ["src/frame.c", "include/frame.h"],
  [("parse, stringify, split", "src/frame.c")],
  ["function results", "sanitizer reports"])

p("C29", "Stalled reads and writes are given up after their configured timeouts",
  "With a read (write) timeout configured, a connection on which the server has waited longer than that for the rest of a frame or request (for the client to take pending data) is closed at the next event on it, instead of being continued; one that resumes within the timeout is served normally. A negative timeout never closes anything.",
  ["histories", "configurations"],
  "all timeout settings and stall lengths in the middle of requests, frames, fragmented messages and partial writes",
  NOSRV + "no test has a clock.",
  ["src/worker.c", "src/config.c"],
  [("timeout test on resumed work", "src/worker.c WSS_work")],
  ["client socket after a stall"])

p("C30", "Messages a subprotocol sends arrive intact, in order and exactly once",
  "A message that a subprotocol sends to a connected client, from within its connect, message or close callback or from a thread of its own, while others send to the same client, reaches that client (and no other) once, whole, uninterrupted by other messages and with its type, or the client is disconnected; messages sent by one thread arrive in the order they were sent, and what was sent while a message was handled arrives before the answers to later messages. A close frame it sends is the last thing the client gets and ends the connection. Sending to a descriptor that is no connected client, at any time until the subprotocol is destroyed, has no effect and does no harm.",
  ["inputs", "schedules", "histories"],
  "all interleavings of sending threads, callbacks, joining and leaving clients and shutdown; all message types and sizes",
  NOSRV + "the echo and broadcast subprotocols of the repository never send from a thread of their own.",
  ["src/message.c", "src/session.c", "src/worker.c", "src/alloc.c", "src/server.c", "src/subprotocols.c"],
  [("WSS_message_send", "src/message.c"), ("job count of a session", "src/session.c WSS_session_acquire"), ("onInit(config, send)", "subprotocols/subprotocol.h")],
  ["client sockets", "sanitizer reports", "exit status"])

p("C31", "Extensions are negotiated and undone in order, and their calls paired",
  "Of the extensions a client offers, in the order offered, each configured one is asked once until it accepts, with the parameters of the offer; the response names exactly the accepted ones in that order, each with the parameters it answered, and nothing follows the response but frames. What the client transformed with the accepted extensions in that order is undone in the opposite order before the subprotocol gets the message, and every message sent to the client is transformed by them in that order, whatever its framing, still in frames no larger than configured. An extension gets its calls for a connection one at a time in each direction, every frame of a message before the message as a whole when receiving, between opening and closing its state; the state of every connection it accepted is closed exactly once however the handshake or the connection ends, it is initialised once with its configuration and destroyed after everything else.",
  ["inputs", "schedules", "histories"],
  "all lists of offers, chains of extensions and message framings; all ways connections end; all interleavings of reading, sending and closing",
  NOSRV + "the repository has one extension and no test loads two.",
  ["src/extensions.c", "src/header.c", "src/worker.c", "src/message.c", "src/session.c"],
  [("WSS_load_extensions", "src/extensions.c"), ("negotiation", "src/header.c parse_header"), ("inframe/inframes", "src/worker.c WSS_read"), ("outframes/outframe", "src/message.c WSS_message_send_frames"), ("close", "src/session.c session_delete, src/worker.c free_header")],
  ["handshake responses", "frames on client sockets", "calls the extensions get", "sanitizer reports"])

p("C32", "TLS uses exactly the configured certificate, ciphers and client checks",
  "The server listens for TLS if and only if a key, a certificate and trusted authorities are configured; if these or the configured ciphers cannot be used it ends with a failure status instead of starting with anything else, and plain connections do not depend on it. Every client is shown the configured certificate and gets a fresh session; the cipher is the first one of the configured list (TLS 1.2) or suites (TLS 1.3) that the client offers and the key allows, ephemeral Diffie-Hellman takes place in the configured group, and a client without a common cipher gets no connection. If client certificates are required, no handshake of a client is answered and no session reaches a subprotocol unless the client proves a certificate that is currently valid, meant for clients and leads to a configured authority; if they are not, nobody is refused for theirs. Refused clients neither disturb the connections of others nor leave anything behind.",
  ["inputs", "configurations", "schedules"],
  "all combinations of keys, certificates, authorities, ciphers and protocol versions of server and client; all interleavings of accepted and refused handshakes",
  NOSRV + "no test performs a TLS handshake.",
  ["src/ssl.c", "src/server.c", "src/config.c", "src/worker.c"],
  [("WSS_http_ssl", "src/ssl.c"), ("WSS_ssl_handshake", "src/ssl.c"), ("WSS_server_start", "src/server.c"), ("ssl keys", "src/config.c config_load")],
  ["outcome of TLS handshakes", "certificate, cipher and group seen by clients", "sessions the subprotocol sees", "listening ports", "exit status", "sanitizer reports"])

p("C33", "The log holds whole records, at the configured level, of every connection",
  "The log file is only ever appended to, also across restarts, and at the levels up to INFO every line of it is one complete record with its time, thread, level and place: concurrent threads never mix their records, the time of a record is the local time at which it was written, and after the configuration is loaded no record is above the configured level, while records of every level up to it appear. At the levels up to INFO nothing a client sends appears in the log, and at no level is it interpreted as a format. At INFO every connection that ends before the server does has exactly one record of its end, which carries its number, the address and port of the peer (IPv4 or IPv6) and whether it was http or https, and at most one of its start, before that. A start that fails, also for lack of file descriptors or threads, leaves a record of level ERROR or above that tells why, with the error of the TLS library if that is the reason, and ends the process with status 1. A release build writes nothing to the standard error output once it is configured.",
  ["inputs", "schedules", "configurations"],
  "all clients, requests and messages; all interleavings of threads that log; all log levels",
  NOSRV + "the tests only discard what is logged.",
  ["src/log.c", "src/main.c", "src/worker.c", "src/config.c"],
  [("log_log", "src/log.c"), ("log_mutex", "src/main.c"), ("WSS_disconnect", "src/worker.c"), ("WSS_connect", "src/worker.c"), ("log_level", "src/config.c config_load")],
  ["lines of log/WSServer.log", "standard error output", "addresses and ports of clients"])

p("C34", "Every plugin configured is loaded, started, used and ended once, or left out",
  "Every subprotocol and extension of the configuration whose file is a shared object with all the functions of its kind is usable under its name (the base name of the file up to the first dot) as soon as the server listens: its PyInit_<name> function, if it has one, is called first, then it gets the memory functions, which work, then it is initialised once with its own configuration string, or nothing when that is missing or not a string, and for a subprotocol a function to send. It is called for sessions only after that, only if a client has negotiated it, with every open matched by one close, and it is ended exactly once after the last of them, when the server ends or when a later step of the start fails, and is never called again. An entry without a file, with a file that cannot be loaded, or that lacks any one function, is left out: nothing of it is called, it is never chosen or announced, it does not stay loaded, and neither the start nor any other plugin is affected.",
  ["inputs", "configurations", "histories"],
  "all lists of plugins and configuration strings, all kinds of unusable files; all sessions; all ways a server ends or fails to start",
  NOSRV + "the tests load the two subprotocols of the repository.",
  ["src/subprotocols.c", "src/extensions.c", "src/config.c", "src/server.c", "src/worker.c"],
  [("WSS_load_subprotocols", "src/subprotocols.c"), ("WSS_load_extensions", "src/extensions.c"), ("WSS_destroy_subprotocols", "src/subprotocols.c"), ("WSS_destroy_extensions", "src/extensions.c"), ("subprotocols_config", "src/config.c config_load")],
  ["calls a plugin gets and their arguments", "what is announced in the handshake", "which plugin answers", "files mapped by the process"])

p("C35", "Signals the server does not end on never disturb its service",
  "SIGHUP and SIGPIPE, whichever thread of the server gets them, at whatever moment and however often, suspending the process and letting it continue, and signals that nobody handles, change nothing that a client can see: the server neither ends nor stops accepting, reading, writing, delivering, closing or timing out, every handshake, echo, broadcast and close is as it would have been without them, over both protocols and with either event loop, and idle clients are pinged and closed at the times configured. An interrupt (SIGINT) ends the server promptly and cleanly whichever of its threads gets it, however many of them follow each other, and whatever other signals arrive at the same time.",
  ["inputs", "schedules", "histories"],
  "all signals the server does not end on, all threads and moments and rates up to some ten thousand a second, after the handlers are in place; all behaviour of clients",
  NOSRV + "and nothing in the tests sends a signal.",
  ["src/server.c", "src/event.c", "src/worker.c"],
  [("WSS_server_interrupt", "src/server.c"), ("WSS_cleanup", "src/server.c"), ("WSS_poll_delegate", "src/event.c"), ("EINTR", "src/worker.c")],
  ["frames and statuses clients receive", "times of pings and closes", "exit status and time to exit"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, (d["id"], len(d["title"]))
        f.write(json.dumps(d) + "\n")
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for d in P: jsonschema.validate(d, s)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
