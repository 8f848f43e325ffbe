#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import glob
import importlib
import json
import os
import random
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
T = os.path.join(V, 'tools')

# Why this reaches what the repository's tests cannot
BEYOND = {
    'C01': 'no test sends a message through a running server; segmentation, pipelining and frame size interact with partial reads and writes.',
    'C02': 'unit tests parse single good frames; the state between frames (fragmentation, position) and the closing are never executed.',
    'C03': 'no test calls the validator; three of four flavours are vector code whose errors sit at block borders.',
    'C04': 'tests parse fixed requests; cuts, spellings and the bytes actually sent are only seen at a socket.',
    'C05': 'tests use one policy; the policy is compiled into one regular expression whose parts influence each other.',
    'C06': 'tests check a few bad requests in one piece; limits and cuts are a product of many values.',
    'C07': 'depends on interleavings of joins, leaves and sends on several threads; no test runs it.',
    'C08': 'needs every way a connection can end, on several threads, with descriptors reused.',
    'C09': 'quantifies over all bytes and moments; tests run without instrumentation.',
    'C10': 'quantifies over schedules; no test has two threads in the server.',
    'C11': 'streams with context: an error may only show in a later message, or only with a window smaller than the data.',
    'C12': 'grammar of offers, multiplied by configurations; the traffic after an answer is what shows a broken promise.',
    'C13': 'control frames interleave with pending writes, fragments, broadcasts and the timeout thread.',
    'C14': 'needs real time, the timeout thread and many behaviours at once.',
    'C15': 'needs blocked sockets, partial writes and full rings.',
    'C16': 'needs signals at arbitrary moments of arbitrary histories.',
    'C17': 'tests load good files; quantifies over files, and the obeying over a running server.',
    'C18': 'tests check return codes; exactly-once depends on the schedule of wake-ups and stops.',
    'C19': 'no test uses the ring; wrap-around, full and concurrent acquire/produce are schedules.',
    'C20': 'no test of the allocator under threads; blocks migrate between threads that end.',
    'C21': 'padding and piece borders: all lengths and splits are run instead of a few.',
    'C22': 'grammar of documents; errors at escapes, numbers and the end of the buffer.',
    'C23': 'no test uses TLS; record borders, renegotiated keys and half-closed peers.',
    'C24': 'quantifies over behaviours of other clients over time.',
    'C25': 'grammar of offers, several instances; which instance gets the messages is only seen inside the server.',
    'C26': 'sizes and dates of the header, concurrent and partial writes.',
    'C27': 'growth shows only over many connections, also of refused and broken ones.',
    'C28': 'all lengths, masks, prefixes and CPU flavours instead of a handful of frames.',
    'C30': 'needs a subprotocol with threads of its own and clients that know what each of them must get.',
    'C31': 'needs several extensions whose effects do not commute, clients that undo them, and state per connection whose life is recorded.',
    'C32': 'needs a public key infrastructure with good and bad certificates of many kinds, clients that use them, and knowledge of the right outcome for random policies.',
    'C33': 'needs many threads that log at the same time, hostile data on its way to the log, and the ports and addresses of all clients to compare with.',
    'C34': 'needs dozens of plugins that are defective in every possible way, a record of each call they get, and clients that negotiate them.',
    'C35': 'needs signals at every moment of every thread while many clients are served; a call that is cut short once in a million is enough to lose a client, or the whole server.',
    'C29': 'needs real time and positions within requests, frames and pending writes.',
}


def names(scen):
    out = {}
    for s in scen:
        k = re.sub(r'(-\d+)+$', '', s.name)
        out[k] = out.get(k, 0) + 1
    return ', '.join('%s×%d' % (k, n) if n > 1 else k for k, n in out.items())


def main():
    out = [open(os.path.join(T, 'design_head.md')).read()]
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        m = importlib.import_module('checks.' + p['id'].lower())
        out.append('\n### %s — %s\n' % (p['id'], p['title']))
        out.append('* **Method:** %s.' % m.TECHNIQUE.rstrip('.'))
        out.append('* **Bounds:** %s' % m.NOTE)
        if getattr(m, 'ASSUMPTIONS', None):
            out.append('* **Assumes:** %s.' % '; '.join(m.ASSUMPTIONS))
        out.append('* **A case:** %s.' % m.RULE.rstrip('.'))
        q = m.scenarios('quick', random.Random(1))
        t = m.scenarios('thorough', random.Random(1))
        out.append('* **Variants:** %s. **Quick scenarios:** %s (thorough: %d scenarios).' % (', '.join(m.VARIANTS), names(q), len(t)))
        out.append('* **Beyond the tests:** %s' % BEYOND[p['id']])
    out.append('\nNothing is listed under not_applicable: every property can be observed on executions.\n')
    out.append('## 3. Repairs in /repo\n')
    for f in json.load(open(os.path.join(V, 'known_findings.json'))):
        out.append('* %s %s' % (f['id'], f['what']))
    out.append(open(os.path.join(T, 'design_tail.md')).read())
    table = json.load(open(os.path.join(T, 'seed_results.json'))) if os.path.exists(os.path.join(T, 'seed_results.json')) else {}
    out.append('| planted bug | breaks | needs | caught by |\n|---|---|---|---|')
    for f in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
        n = os.path.basename(os.path.dirname(f))
        d = json.load(open(f))
        out.append('| %s | %s: %s | %s | %s |' % (n, d['property'], d['what_it_breaks'].replace('|', '/'), d['needs'].replace('|', '/'), table.get(n, d['property'])))
    with open(os.path.join(V, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


main()
