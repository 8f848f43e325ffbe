"""C34: plugins are loaded, started, used and ended as configured."""
import os
import random
import shutil
import signal
import subprocess
import threading
import time

from checks.c10 import judge
from checks.c14 import parallel
from vlib import build as B
from vlib.check import Scenario, Violation, short
from vlib.server import StartError
from vlib.work import blob
from vlib.ws import BIN, CLOSE, TEXT, Client, frame, request

PROPERTY = 'C34'
LEVEL = 'exploration'
TECHNIQUE = ('plugins written for it (complete ones, ones that lack any one function, files that are no plugins) record every call the real server makes to them and check that it is '
             'allowed at that time; the records are matched with the configuration and with what concurrent clients were offered and got')
NOTE = 'Sampled configurations; which of several plugins of one name serves clients is not judged.'
VARIANTS = ['rel', 'asan', 'ubsan']
RULE = 'a case is one configured plugin with its life in one run of the server, or one connection that negotiated plugins; distinct by kind of plugin, configuration and use'
ASSUMPTIONS = ['a plugin is named by the base name of its file up to the first dot']

SUB = ['setAllocators', 'onInit', 'onConnect', 'onMessage', 'onWrite', 'onClose', 'onDestroy']
EXT = ['setAllocators', 'onInit', 'onOpen', 'inFrame', 'inFrames', 'outFrame', 'outFrames', 'onClose', 'onDestroy']


def fnv(b):
    h = 14695981039346656037
    for c in b:
        h = ((h ^ c) * 1099511628211) & (1 << 64) - 1
    return h


class Kit:
    """The compiled kinds of plugins."""
    def __init__(self, d, kinds):
        self.d = os.path.join(d, 'kit')
        os.mkdir(self.d)
        jobs = []
        for k in kinds:
            jobs.append(lambda k=k: self.compile(k))
        # several at once, but they are short
        for i in range(0, len(jobs), 8):
            parallel(None, jobs[i:i + 8])

    def compile(self, k):
        ext, what = k
        cmd = ['gcc', '-shared', '-fPIC', '-O1', '-w', '-std=gnu11', '-fvisibility=hidden'] + B.INC + ['-pthread']
        if ext:
            cmd.append('-DEXT')
        if what.startswith('no-'):
            cmd.append('-DOMIT_' + what[3:])
        elif what.startswith('py-'):
            cmd.append('-DPY=PyInit_' + what[3:])
        elif what == 'foreign':
            cmd += ['-DFOREIGN', '-Wl,-z,lazy']
        out = os.path.join(self.d, '%d-%s.so' % k)
        cmd += [os.path.join(B.VERIF, 'harness', 'life.c'), '-o', out, '-ldl']
        if what == 'missing-library':
            lib = os.path.join(self.d, 'lib%dgone.so' % ext)
            self.run(['gcc', '-shared', '-fPIC', '-x', 'c', '/dev/null', '-o', lib])
            cmd += ['-Wl,--no-as-needed', lib]
        self.run(cmd)
        if what == 'missing-library':
            os.remove(lib)

    def run(self, cmd):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise B.BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-1000:]))

    def copy(self, k, to):
        os.makedirs(os.path.dirname(to), exist_ok=True)
        shutil.copy(os.path.join(self.d, '%d-%s.so' % k), to)


class Entry:
    """One entry of the configuration."""
    def __init__(self, ext, kind, name, path, conf, good):
        self.ext, self.kind, self.name, self.path, self.conf, self.good = ext, kind, name, path, conf, good

    def json(self):
        o = {}
        if self.path is not None:
            o['file'] = self.path
        if self.conf is not Ellipsis:
            o['config'] = self.conf
        return o

    @property
    def init(self):
        if not isinstance(self.conf, str):
            return 'init null'
        b = self.conf.encode()
        return 'init %d %016x' % (len(b), fnv(b))


NAMES = ['chat', 'a', 'x' * 60, 'mqtt-v3_1', 'UPPER', 'upper', 'soap+x', '0', 'v10!~', "it's", 'onInit', 'so', 'echo2', 'ech', 'permessage', 'broadcasts', 'q' * 180]
CONFS = [Ellipsis, None, '', 'x', 'a=1;b=2', 'æøå \u20ac \U0001f600', '"quoted" \\ \n\t', 'y' * 5000, 7, 1.5, True, {'a': 'b'}, ['a']]


def entries(rng, d, kit, ext, kinds, prefix=''):
    """Entries of all the kinds under random names, in random order."""
    out = []
    names = rng.sample(NAMES, len(NAMES))
    for k in kinds:
        if k.startswith('py-'):
            name = k[3:]
        else:
            name = prefix + (names.pop() if names else 'n%d' % rng.randrange(10**9))
        suffix = rng.choice(['.so', '.so', '.so.1', '', '.v2.so'])
        p = os.path.join(d, rng.choice(['plug', 'plug/deep.er/x', 'p.q']) + ('-ext' if ext else '-sub'), name + suffix)
        conf = rng.choice(CONFS)
        good = True
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if k in ('full', 'foreign') or k.startswith('py-'):
            kit.copy((ext, k), p)
        elif k == 'link':
            real = os.path.join(d, 'real-%d' % ext, name + 'target.so')
            kit.copy((ext, 'full'), real)
            os.symlink(real, p)
        elif k == 'relative':
            kit.copy((ext, 'full'), p)
            p = './' + os.path.relpath(p, d)
        elif k == 'same':
            # the same file once more
            e = rng.choice([e for e in out if e.kind == 'full'])
            p, name = e.path, e.name
        elif k == 'namesake':
            e = rng.choice([e for e in out if e.kind == 'full'])
            name = e.name
            p = os.path.join(d, 'other-%d' % ext, os.path.basename(e.path))
            kit.copy((ext, 'full'), p)
        else:
            good = False
            if k.startswith('no-') or k == 'missing-library':
                kit.copy((ext, k), p)
            elif k == 'wrong':
                kit.copy((not ext, 'full'), p)
            elif k == 'text':
                with open(p, 'wb') as f:
                    f.write(b'#!/bin/sh\nexit 1\n' * rng.randrange(1, 50))
            elif k == 'empty':
                open(p, 'wb').close()
            elif k == 'short':
                with open(p, 'wb') as f:
                    f.write(b'\x7fELF\x02\x01\x01' + bytes(rng.randrange(0, 50)))
            elif k == 'directory':
                os.mkdir(p)
            elif k == 'absent':
                pass
            elif k == 'dangling':
                os.symlink(p + '-no', p)
            elif k == 'bare':
                # without a slash it is not looked for in the directory of the server
                kit.copy((ext, 'full'), os.path.join(d, name + '.so'))
                p = name + '.so'
            elif k == 'unset':
                p = None
            elif k == 'nothing':
                p = ''
            else:
                assert 0, k
        out.append(Entry(ext, k, name, p, conf, good))
    rng.shuffle(out)
    return out


def lives(d):
    """The records by process and path."""
    out = {}
    try:
        with open(os.path.join(d, 'life.log')) as f:
            lines = f.read().split('\n')
    except FileNotFoundError:
        return out
    for l in lines:
        if l:
            pid, path, what = l.split(' ', 2)
            out.setdefault(int(pid), {}).setdefault(os.path.basename(os.path.dirname(path)) + '/' + os.path.basename(path) if path.startswith('/') else path, []).append(what)
    return out


def key(p):
    return None if p is None else os.path.basename(os.path.dirname(p)) + '/' + os.path.basename(p) if p.startswith('/') else p


def lived(ctx, recs, es, complete=True):
    """The records of one process against the configuration."""
    by = {}
    for e in es:
        by.setdefault(key(e.path), []).append(e)
    for p, w in recs.items():
        bad = [x for x in w if x.startswith('BAD')]
        if bad:
            raise Violation('life:forbidden', '%s: %s (%s)' % (p, bad[0], short(w)))
        if p not in by and (not by or 'real-' not in p):
            raise Violation('life:foreign', '%s is not configured: %s' % (p, short(w)))
    for p, g in by.items():
        e = g[0]
        w = recs.get(p, [])
        if not e.good:
            calls = [x for x in w if x not in ('load', 'unload') and not x.startswith('python')]
            if calls:
                raise Violation('life:left-out', '%s (%s) cannot be used but is called: %s' % (p, e.kind, short(calls)))
            continue
        core = [x for x in w if x.split()[0] in ('load', 'python', 'alloc', 'init', 'destroy', 'unload')]
        inits = sorted(x for x in core if x.startswith('init'))
        if inits != sorted(x.init for x in g):
            raise Violation('life:init', '%s (%s) with configuration %s: %s' % (p, e.kind, short([x.conf for x in g]), short(core)))
        n = len(g)
        want = ['load'] + ['python'] * n * e.kind.startswith('py-') + ['alloc', 'init'] * n
        if complete:
            want += ['destroy'] * n + ['unload']
        got = [x.split()[0] for x in core]
        if n == 1 and got != want or sorted(got) != sorted(want):
            raise Violation('life:calls', '%s (%s): %s instead of %s' % (p, e.kind, short(core), want))
        py = [x for x in core if x.startswith('python')]
        if py and n == 1 and py != ['python 0 0']:
            raise Violation('life:python', '%s: %s' % (p, core))
        opens, closes = w.count('open'), w.count('close')
        if complete and opens != closes:
            raise Violation('life:balance', '%s: %d opened, %d closed' % (p, opens, closes))
        ctx.count('calls recorded', len(w))
        for x in g:
            ctx.case((x.ext, x.kind, type(x.conf).__name__, opens > 0), sample='%s %s' % (p, short(core)))


def clients(ctx, s, rng, es, threads, rounds, tls):
    subs = {}
    exts = {}
    for e in es:
        d = exts if e.ext else subs
        if e.good:
            d.setdefault(e.name, []).append(e)
    out = [e.name for e in es if not e.good]
    known = list(subs)
    bases = {n: {os.path.basename(e.path) for e in g} for n, g in subs.items()}
    # links are known to the plugin by another name
    for e in es:
        if e.kind == 'link' and not e.ext:
            bases[e.name].add(e.name + 'target.so')

    def client(r):
        for i in range(rounds):
            ps = [r.choice(known + out + ['nothing', 'echo', 'onInit.so', 'CHAT', 'broadcast', 'snake.so']) for _ in range(r.randrange(0, 5))]
            xs = r.sample(list(exts) + [e.name for e in es if e.ext and not e.good], min(r.randrange(0, 5), len(exts)))
            chosen = next((p for p in ps if p in subs or p in ('echo', 'broadcast')), None)
            sec = tls and r.random() < 0.4
            c = Client(s.https if sec else s.http, tls='1.3' if sec else None, timeout=30)
            h = c.handshake(protocols=', '.join(ps) if ps else None, extensions=', '.join(xs) if xs else None)
            got = h.get('sec-websocket-protocol')
            if got != chosen:
                raise Violation('life:chosen', '%r offered, %r instead of %r' % (ps, got, chosen))
            want = []
            for x in xs:
                if x in exts and x not in want:
                    want.append(x)
            have = [x.split(';')[0].strip() for v in h.all('sec-websocket-extensions') for x in v.split(',')]
            if have != want:
                raise Violation('life:extensions', '%r offered, %r instead of %r' % (xs, have, want))
            # what is sent by broadcast goes to others
            for j in range(0 if chosen == 'broadcast' else r.choice([0, 1, 3])):
                m = blob(r, r.choice([0, 1, 10, 300, 70000]))
                c.send(frame(BIN, m))
                op, d = c.read_event()
                if chosen in subs:
                    # the answer begins with who answered
                    base, _, rest = d.partition(b':')
                    ok = base.decode('latin1') in bases[chosen] and rest == m
                else:
                    ok = d == m
                if op != BIN or not ok:
                    raise Violation('life:answer', '%r chosen of %r; %d %s' % (chosen, ps, op, short(d)))
            if r.random() < 0.5:
                c.send(frame(CLOSE, b'\x03\xe8'))
                c.expect_eof(20)
            c.close()
            ctx.case(('client', chosen is not None, len(want)), sample='%r %r: %r %r' % (ps, xs, got, have))
            ctx.count('connections')
    parallel(None, [lambda r=random.Random(rng.random()): client(r) for _ in range(threads)])


def leftover(s, es):
    """Files that are not used do not stay in the memory of the server."""
    with open('/proc/%d/maps' % s.pid) as f:
        maps = f.read()
    for e in es:
        if not e.good and e.path and e.path.startswith('/') and (e.path + '\n') in maps:
            raise Violation('life:mapped', '%s (%s) is left out but stays loaded' % (e.path, e.kind))
        if e.good and e.kind != 'link' and e.path.startswith('/') and (e.path + '\n') not in maps:
            raise Violation('life:unmapped', '%s (%s) is not loaded' % (e.path, e.kind))


BAD = ['wrong', 'text', 'empty', 'short', 'directory', 'absent', 'dangling', 'bare', 'unset', 'nothing', 'missing-library']


def kinds(rng, ext, some=None):
    k = ['full', 'full', 'foreign', 'link', 'relative', 'same', 'namesake', 'py-snake', 'full'] + BAD + ['no-' + f for f in (EXT if ext else SUB)]
    if some is not None:
        k = ['full'] + rng.sample(k[1:], some)
    return k


def configured(ctx, variant, sub, ext, threads=6, rounds=25, stop='sigint', runs=1, some=None, busy=False, tls=False):
    rng = ctx.rng
    with ctx.server(variant, {'setup': {'log_level': 1, 'subprotocols': ['echo', 'broadcast'], 'pool': {'workers': rng.choice([1, 4, 8])}}}, tls=tls, start=False) as s:
        ks = [kinds(rng, False, some) if sub else [], kinds(rng, True, some) if ext else []]
        kit = Kit(s.dir, sorted({(x, k if k.startswith(('no-', 'py-')) or k in ('foreign', 'missing-library') else 'full') for x in (False, True) for k in ks[x]} | {(False, 'full'), (True, 'full')}))
        es = entries(rng, s.dir, kit, False, ks[0]) + entries(rng, s.dir, kit, True, ks[1])
        own = s.conf['setup']['subprotocols']
        mine = [e.json() for e in es if not e.ext]
        at = rng.randrange(len(mine) + 1)
        s.conf['setup']['subprotocols'] = mine[:at] + own + mine[at:]
        s.conf['setup']['extensions'] = [e.json() for e in es if e.ext]
        s.env['WSS_LIFE'] = os.path.join(s.dir, 'life.log')
        for run in range(runs):
            try:
                s.start()
            except StartError as e:
                raise Violation('life:start', 'entries %s: %s' % (short([(x.kind, x.conf) for x in es]), str(e)[:1500]))
            pid = s.pid
            leftover(s, es)
            lived(ctx, lives(s.dir).get(pid, {}), es, complete=False)
            clients(ctx, s, rng, es, threads, rounds, tls)
            open_ = []
            if busy:
                # connections that are there when the server ends
                good = [e.name for e in es if e.good and not e.ext] or ['echo']
                for i in range(8):
                    c = Client(s.http)
                    c.handshake(protocols=rng.choice(good), extensions=rng.choice([e.name for e in es if e.good and e.ext] or ['x']))
                    c.send(frame(TEXT, b'x') * 5)
                    open_.append(c)
            alive = s.alive()
            judge(ctx, s, alive, s.stop(40))
            s.proc = None
            for c in open_:
                c.close()
            rec = lives(s.dir)
            for p, r in rec.items():
                lived(ctx, r, es)
            if pid not in rec and any(e.good for e in es):
                raise Violation('life:none', 'no plugin was loaded')
            ctx.count('runs')


def failing(ctx, variant, how):
    """The start fails after the plugins have been started: they are ended."""
    import socket
    rng = ctx.rng
    conf = {'setup': {'subprotocols': ['echo']}}
    with ctx.server(variant, conf, tls=how in ('https', 'cert'), start=False) as s:
        kit = Kit(s.dir, [(x, k) for x in (False, True) for k in ('full', 'py-snake', 'no-onClose')])
        es = entries(rng, s.dir, kit, False, ['full', 'py-snake', 'no-onClose', 'full', 'same', 'absent']) + entries(rng, s.dir, kit, True, ['full', 'no-onClose', 'same', 'text'])
        s.conf['setup']['subprotocols'] += [e.json() for e in es if not e.ext]
        s.conf['setup']['extensions'] = [e.json() for e in es if e.ext]
        s.env['WSS_LIFE'] = os.path.join(s.dir, 'life.log')
        socks = []
        ports = []
        for i in range(2):
            k = socket.socket(socket.AF_INET6, socket.SOCK_STREAM)
            k.bind(('::', 0))
            ports.append(k.getsockname()[1])
            if i == (how == 'https') and how in ('http', 'https'):
                k.listen(1)
                socks.append(k)
            else:
                k.close()
        if how == 'cert':
            junk = os.path.join(s.dir, 'junk.pem')
            with open(junk, 'w') as f:
                f.write('junk\n')
            s.conf['setup']['ssl']['cert'] = junk
        s.conf['setup']['port'] = {'http': ports[0], 'https': ports[1]}
        cfg = s.write_config()
        with open(os.path.join(s.dir, 'stderr'), 'ab') as err:
            p = subprocess.Popen([os.path.join(s.bdir, 'WSServer'), '-c', cfg], cwd=s.dir, stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=s.environment())
            try:
                st = p.wait(60)
            except subprocess.TimeoutExpired:
                p.send_signal(signal.SIGKILL)
                p.wait()
                raise Violation('life:start-hangs', 'start that cannot succeed (%s) does not end' % how)
        reps = s.reports()
        if reps:
            raise Violation(reps[0].signature, reps[0].text[:4000])
        if st <= 0:
            raise Violation('life:start-status', 'start that cannot succeed (%s) ends with %d' % (how, st))
        for k in socks:
            k.close()
        rec = lives(s.dir)
        if not rec:
            raise Violation('life:none', 'no plugin was loaded')
        for r in rec.values():
            lived(ctx, r, es)
        ctx.case(('failing', how), sample='%d plugins' % len(es))
        ctx.count('failing starts')


def scenarios(tier, rng):
    deep = tier == 'thorough'
    out = []
    k = 5 if deep else 1
    for i in range(k):
        for v in ('rel', 'asan', 'ubsan'):
            out.append(Scenario('all-%s-%d' % (v, i), configured, variant=v, sub=True, ext=True, busy=True, tls=v == 'asan', rounds=80, weight=2, timeout=200))
        out.append(Scenario('subprotocols-%d' % i, configured, variant='rel', sub=True, ext=False, busy=bool(i % 2), weight=2, timeout=200))
        out.append(Scenario('extensions-%d' % i, configured, variant='asan', sub=False, ext=True, busy=bool(i % 2), weight=2, timeout=200))
        out.append(Scenario('again-%d' % i, configured, variant='rel', sub=True, ext=True, runs=3, rounds=10, some=8, weight=2, timeout=200))
    for i in range(8 * k):
        out.append(Scenario('some-%d' % i, configured, variant=rng.choice(['rel', 'asan', 'ubsan']), sub=True, ext=True, some=rng.randrange(1, 10), tls=i % 2 == 1, rounds=25, busy=rng.random() < 0.5, weight=2, timeout=200))
    for v in ('rel', 'asan'):
        for how in ('http', 'https', 'cert'):
            out.append(Scenario('failing-%s-%s' % (v, how), failing, variant=v, how=how, weight=1, timeout=120))
    return out
