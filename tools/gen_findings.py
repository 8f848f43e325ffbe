#!/usr/bin/env python3
"""Writes known_findings.json. Every entry is a defect repaired in /repo by a
commit of its own; a fixed entry suppresses nothing."""
import json
import os
import subprocess

FIXED = [
    # property, start of the commit's subject, what failed
    ('C04', 'frame parser must not let', 'a frame announcing a payload of about 2^64 bytes made the parser read far behind its buffer (offset + length wrapped around)'),
    ('C01', 'only the first frame of a fragmented', 'an echo larger than size.frame was sent as several TEXT/BINARY frames instead of one followed by continuations'),
    ('C03', 'reject an oversized frame', 'a frame larger than the limits was buffered completely before being refused'),
    ('C06', 'header values may be empty', 'a header line with an empty value, or without a space after the colon, was refused or lost its first letter'),
    ('C12', 'extension offers in several headers', 'only the last of several Sec-WebSocket-Extensions headers was considered, empty offers were misread and refused offers leaked'),
    ('C09', 'permessage-deflate must survive', 'a corrupt, huge or fragmented compressed message crashed the server or was delivered wrongly'),
    ('C22', 'no pointer arithmetic on null', 'counting the names of a JSON object computed on a null pointer'),
    ('C17', 'name of the Cython initialiser', 'the name of a plugin of certain lengths overflowed the buffer of the Cython initialiser'),
    ('C17', 'a file that cannot be read completely', 'a configuration file that could not be read completely left a dangling buffer which was freed again'),
    ('C05', 'Upgrade and Connection tokens', 'Upgrade: xwebsocketx and Connection: xUpgrade were accepted'),
    ('C10', 'session lifetime, ordered writes', 'a session was freed while another thread used it, messages of several workers were interleaved or reordered, reads of a fragmented message restarted from the beginning'),
    ('C18', 'destroying a thread pool twice', 'threadpool_destroy() called a second time kept the lock of the pool for ever; the lock was destroyed while held'),
    ('C01', 'work is handed over again', 'a connection was dropped for ever when the queue of the pool was full for a moment'),
    ('C16', 'shutdown joined a thread twice', 'a shutdown joined a thread twice, freed instances that were still used, and a signal during the start was lost'),
    ('C12', 'permessage-deflate offers and configuration', 'offers with unknown or repeated parameters or bad values were accepted, quoted values were not understood'),
    ('C26', 'dates of responses shared a buffer', 'Date and Last-Modified of concurrent responses were mixed up (static buffer of gmtime)'),
    ('C17', 'loading and freeing the configuration', 'loading a malformed configuration used memory uninitialised or freed'),
    ('C05', 'a Sec-WebSocket-Key followed', 'a Sec-WebSocket-Key with trailing characters was accepted, and copied to the stack whatever its length'),
    ('C23', 'a failed TLS write after the client', 'a TLS client that sent close_notify and vanished while the server was writing kept one worker spinning for ever'),
    ('C24', 'read a bounded amount per event', 'a client that never stops sending captured a worker for ever and made the server buffer without bound'),
    ('C01', 'retry an interrupted read', 'an interrupted read (EINTR) failed the connection'),
    ('C10', 'only retry epoll_ctl when', 'epoll_ctl was retried for ever when an earlier call had been interrupted (stale errno)'),
    ('C20', 'rpmalloc released a span', 'the owner of a span released it for reuse while another thread was still storing the block it had freed into it'),
    ('C10', 'with poll the workers', 'with the poll backend workers changed the array of descriptors while the server thread polled and read it'),
    ('C10', 'the TLS state of a new session', 'the timeout thread read session->ssl while a worker was setting it'),
    ('C19', 'a producer that found no free record', 'with all temporary records of a ring buffer in use ringbuf_acquire() handed out the record of another producer'),
    ('C20', 'sizes that overflow', 'WSS_malloc(SIZE_MAX), WSS_calloc(2^62, 8) and the like returned blocks that are too small'),
    ('C20', 'rpmalloc looked at a span', 'after storing its block in the deferred list of a span a thread still read the block count of the span, which could be in use again with another size class'),
    ('C22', 'a JSON literal cut off', 'a document that ends in "tru", "fals" or "nul" was read one byte past its end'),
    ('C22', 'JSON escapes of characters beyond', '"\\ud842\\udfb7" (U+20BB7) was parsed to U+10BB7'),
    ('C22', 'a minus sign without digits', '[-] was parsed to [0]'),
    ('C22', 'JSON numbers with many digits', 'integers of more than 18 digits and fractions of more than 18 digits overflowed (signed overflow), and 0.1 and the like were not the nearest double'),
    ('C28', 'the reason of a close frame was read past', 'a close message handed to WSS_create_frames without a terminating NUL was read beyond its end (the reason was measured with strlen)'),
    ('C17', 'a directory given as the configuration file', 'WSServer -c DIRECTORY computed LONG_MAX + 1 for the size of the file'),
    ('C17', 'a second configuration file leaked', 'WSServer -c a.json -c b.json leaked everything loaded from a.json'),
    ('C17', 'a thread pool that could not be created', 'with pool.workers 0 the queue of the refused thread pool leaked'),
    ('C17', 'a frame size of 0 divided by zero', 'with size.frame 0 the first message divided by zero (conversion of NaN to an integer)'),
    ('C11', 'compressed messages were sent in frames', 'a compressed message was sent in frames larger than size.frame when compression did not make it smaller'),
    ('C24', 'clients waiting while all descriptors', 'a client that connected while all descriptors were in use was not accepted when they were free again, until another client connected'),
    ('C12', 'an extension parameter with a value', 'an offer with the parameter "=" or "=10" (no name) was accepted as valid'),
    ('C30', 'a subprotocol that sent or allocated from a thread of its own', 'the first message a subprotocol sent from a thread of its own crashed the server (the allocator did not know the thread)'),
    ('C30', 'the session lock was destroyed while threads', 'at the shutdown the session lock was destroyed before the subprotocols, whose threads could still be sending'),
    ('C31', 'the response to a handshake that accepts several', 'a client that negotiated several extensions, or one without parameters, received a stray NUL byte after the handshake response, which broke the framing of everything after it'),
    ('C31', 'the extensions a client applied were undone', 'of several extensions the first was undone first, thus what the client had sent could not be restored (or was delivered garbled)'),
    ('C32', 'the cipher preference of the server', 'the cipher a client preferred was used instead of the first one of the configured list it offered'),
    ('C32', 'a list of ciphers that could not be set', 'a configured list of ciphers that could not be used was ignored, and the server started with the default ciphers'),
    ('C10', 'an event of an earlier session', 'an event still queued for an earlier session of a reused descriptor was handled on the new session before it was set up: the server crashed answering a request without a ring buffer'),
    ('C32', 'a failing start freed the HTTP instance', 'when TLS could not be set up or its port was taken, memory of the running HTTP instance was freed under its threads'),
    ('C10', 'a failing TLS handshake marked', 'a failed TLS handshake set the closing flag of the session without the lock under which the timeout thread reads it'),
    ('C17', 'a server on any free port', 'a port of 0 (any free one) crashed the start whenever hosts were configured: log10(0) gave the size of the pattern of allowed URIs'),
    ('C17', 'an empty string as the only path', 'paths or queries whose only entry was the empty string made the pattern one byte too long to be terminated before its start: the start crashed'),
    ('C17', 'a large read buffer overflowed', 'the poll event loop put an array of size.buffer bytes on its stack: a large but valid buffer size crashed it with the first event'),
    ('C05', 'websocket versions beginning', 'Sec-WebSocket-Version: 13x or 4294967309 was taken for 13'),
    ('C04', 'a header of an older protocol', 'a header of the older drafts (Sec-WebSocket-Key1, WebSocket-Protocol) after the version made a valid request get 501, before it did not'),
    ('C35', 'signals put off the cleanup', 'each signal the timeout thread got started its wait anew: as long as signals came more often than the period no client was pinged or timed out'),
    ('C16', 'the server aborted at its end', 'interrupted, or failing to start, without a free file descriptor the server aborted: its threads ended with pthread_exit, for which glibc has to open libgcc_s.so.1'),
    ('C33', 'a start that failed for lack of descriptors', 'a start that could not create a pipe told so at level TRACE only'),
]

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h fix: %s'], text=True).replace('fix: fix: ', 'fix: ').splitlines()]
    out = []
    used = set()
    for prop, start, what in FIXED:
        hits = [h for h, s in log if s.startswith('fix: ' + start)]
        assert len(hits) == 1, (start, hits)
        used.add(hits[0])
        out.append({'property': prop, 'id': 'F%02d' % (len(out) + 1), 'status': 'fixed', 'key': None,
                    'what': 'fixed: property=%s %s %s' % (prop, hits[0], what)})
    left = [s for h, s in log if h not in used]
    print('commits not recorded:', left)
    with open(os.path.join(here, 'known_findings.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
