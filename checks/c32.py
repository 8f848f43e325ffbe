"""C32: secure connections use exactly the configured certificate, ciphers and client checks."""
import gc
import os
import random
import re
import socket
import ssl
import subprocess
import threading
import time

from checks.c10 import judge
from checks.c14 import parallel
from vlib.check import Scenario, Violation, short
from vlib.pki import Pki
from vlib.server import RES, StartError, free_ports
from vlib.work import blob
from vlib.ws import BIN, TEXT, Client, Closed, ProtocolError, Timeout, frame

PROPERTY = 'C32'
LEVEL = 'exploration'
TECHNIQUE = ('online reference model of the security policy: for random certificates, cipher preferences, trusted authorities and client certificates, all made by the check so '
             'that the right answer is known, every handshake is compared with what the configuration demands; sanitizers on the server')
NOTE = 'Sampled policies and peers; OpenSSL back end and OpenSSL clients only.'
VARIANTS = ['rel', 'poll', 'relc', 'asan', 'tsan']
RULE = ('a case is one TLS handshake or one start of the server whose outcome was compared with the policy; distinct by policy, kind of client certificate or key, '
        'protocol version and outcome')
ASSUMPTIONS = ['OpenSSL verifies chains of certificates correctly once it is told what to verify', 'the clock is between 2022 and 2099']

PATIENCE = 25
REFUSED = (ssl.SSLError, Closed, ConnectionError, BrokenPipeError)

C12 = ['ECDHE-RSA-AES128-GCM-SHA256', 'ECDHE-RSA-AES256-GCM-SHA384', 'ECDHE-RSA-CHACHA20-POLY1305', 'ECDHE-ECDSA-AES128-GCM-SHA256', 'ECDHE-ECDSA-AES256-GCM-SHA384',
       'ECDHE-ECDSA-CHACHA20-POLY1305', 'DHE-RSA-AES128-GCM-SHA256', 'DHE-RSA-AES256-GCM-SHA384', 'AES128-GCM-SHA256', 'AES256-GCM-SHA384', 'AES128-SHA256',
       'ECDHE-RSA-AES128-SHA256', 'ECDHE-ECDSA-AES256-SHA384', 'ECDHE-RSA-AES256-SHA', 'AES256-SHA']
C13 = ['TLS_AES_256_GCM_SHA384', 'TLS_CHACHA20_POLY1305_SHA256', 'TLS_AES_128_GCM_SHA256', 'TLS_AES_128_CCM_SHA256']


def usable(name, kind, dh):
    if 'ECDSA' in name:
        return kind == 'ec'
    return kind == 'rsa' and (dh or not name.startswith('DHE'))


def context(version=None, ciphers=None, pair=None, trust=None):
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname = False
    c.verify_mode = ssl.CERT_NONE
    c.set_ciphers(ciphers or 'ALL:@SECLEVEL=0')
    if version:
        c.minimum_version = c.maximum_version = ssl.TLSVersion.TLSv1_2 if version == '1.2' else ssl.TLSVersion.TLSv1_3
    if trust:
        c.load_verify_locations(trust)
        c.verify_mode = ssl.CERT_REQUIRED
    if pair:
        c.load_cert_chain(*pair)
    return c


def speak(ctx, s, c, rng, proto='rec', leave=True):
    """Websocket handshake and an echo, on whatever connection that is."""
    c.handshake(protocols=proto, timeout=PATIENCE)
    d = b'=' + blob(rng, rng.choice([0, 20, 1000, 40000]))
    if proto == 'rec':
        c.send(frame(TEXT, b'hello'))
        return c
    c.send(frame(BIN, d))
    if c.read_event(PATIENCE) != (BIN, d):
        raise Violation('tls:echo', 'wrong answer to %d bytes' % len(d))
    if leave:
        if c.goodbye() != 1000:
            raise Violation('tls:goodbye', 'wrong close status')
    return c


def attempt(ctx, s, tls, rng, proto='echo', **kw):
    """True if a message came back, False if the connection was refused by TLS."""
    try:
        c = Client(s.https, tls=tls, timeout=PATIENCE, **kw)
    except REFUSED:
        return False, None
    try:
        c.sock.cut = None
        try:
            c.handshake(protocols=proto, timeout=PATIENCE)
        except REFUSED:
            return False, None
        d = blob(rng, rng.choice([0, 20, 1000, 40000]))
        c.send(frame(BIN, d))
        if c.read_event(PATIENCE) != (BIN, d):
            raise Violation('tls:echo', 'wrong answer to %d bytes' % len(d))
        info = (c.sock.obj.cipher()[0], c.sock.version(), c.sock.obj.getpeercert(True), c.sock.obj.session_reused)
        if c.goodbye() != 1000:
            raise Violation('tls:goodbye', 'wrong close status')
        return True, info
    finally:
        c.close()


def end(ctx, s):
    alive = s.alive()
    judge(ctx, s, alive, s.stop(40))
    s.proc = None


def material(p, *certs, **more):
    """The ssl part of a configuration."""
    d = {'key': p.path(certs[0] + '.key'), 'cert': p.path(certs[0] + '.pem'), 'ca_file': p.path('ca.pem'), 'dhparam': None}
    d.update(more)
    return {'setup': {'ssl': d, 'pool': {'workers': 3}}}


def sclient(s, *args, wait=PATIENCE):
    """What the command line client says about a handshake."""
    try:
        p = subprocess.run(['openssl', 's_client', '-connect', '127.0.0.1:%d' % s.https, *args], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=wait)
    except subprocess.TimeoutExpired:
        raise Timeout('openssl s_client %s' % ' '.join(args))
    return p.returncode, p.stdout.decode('latin1')


def identity(ctx, variant, kinds):
    """The certificate that is shown is the one configured, with the chain that leads to a
    configured authority, whatever the server name asked for."""
    rng = ctx.rng
    with Pki() as p:
        p.cert('ca', ca=True)
        p.cert('mid', 'ca', ca=True)
        for n, kind in enumerate(kinds):
            name = 'srv%d' % n
            deep = rng.random() < 0.4
            many = rng.random() < 0.3
            p.cert(name, 'mid' if deep else 'ca', kind=kind, usage=rng.choice([None, 'serverAuth']),
                   alt=','.join('DNS:h%d.example.org' % i for i in range(rng.choice([300, 1500]))) if many else None)
            want = p.der(name)
            by_file = rng.random() < 0.5
            if deep:
                both = p.write('both%d.pem' % n, p.text('ca.pem') + p.text('mid.pem'))
                trust = {'ca_file': both if by_file else None, 'ca_path': None if by_file else p.folder('d%d' % n, 'ca', 'mid')}
            else:
                trust = {'ca_file': p.path('ca.pem') if by_file else None, 'ca_path': None if by_file else p.folder('d%d' % n, 'ca')}
            with ctx.server(variant, material(p, name, **trust), tls=True) as s:
                for v in ('1.2', '1.3', None):
                    for k in range(3):
                        seg = rng.choice([None, [1], [100], [5, 1000]])
                        ok, info = attempt(ctx, s, context(v, trust=p.path('ca.pem')), rng, cut=seg)
                        what = '%s certificate%s, authorities in a %s, TLS %s' % (kind, ' under an intermediate one' if deep else '', 'file' if by_file else 'folder', v or 'any')
                        ctx.check(ok, 'identity:refused', '%s: a client that trusts the authority got no connection' % what)
                        ctx.check(info[2] == want, 'identity:certificate', '%s: the server showed another certificate' % what)
                        ctx.check(info[1] == {'1.2': 'TLSv1.2'}.get(v, 'TLSv1.3'), 'identity:version', '%s: %s was used' % (what, info[1]))
                        ctx.check(not info[3], 'identity:resumed', '%s: session was resumed' % what)
                        ctx.case(('identity', kind, deep, by_file, v, many), sample=what)
                end(ctx, s)


def preference(ctx, variant, policies, each):
    """The first cipher of the server's list that the client offers and that the key allows."""
    rng = ctx.rng
    with Pki() as p:
        p.cert('ca', ca=True)
        for kind in ('rsa', 'ec'):
            p.cert(kind, 'ca', kind=kind)
        for n in range(policies):
            kind = rng.choice(['rsa', 'rsa', 'ec'])
            dh = rng.choice([None, RES + '/dhparam.pem'])
            order = rng.sample(C12, rng.randrange(1, len(C12) + 1))
            if not any(usable(c, kind, dh) for c in order):
                order.append(rng.choice([c for c in C12 if usable(c, kind, dh)]))
            suites = rng.sample(C13, rng.randrange(1, len(C13) + 1))
            conf = material(p, kind, dhparam=dh, cipher_list=':'.join(order), cipher_suites=':'.join(suites))
            with ctx.server(variant, conf, tls=True) as s:
                for k in range(each):
                    offer = rng.sample(C12, rng.choice([1, 2, 4, 8, len(C12)]))
                    both = [c for c in order if c in offer and usable(c, kind, dh)]
                    ok, info = attempt(ctx, s, context('1.2', ':'.join(offer) + ':@SECLEVEL=0'), rng)
                    what = 'server %s (%s key%s), client %s' % (':'.join(order), kind, ', dhparam' if dh else '', ':'.join(offer))
                    if both:
                        ctx.check(ok, 'cipher:refused', '%s: no connection, %s expected' % (what, both[0]))
                        ctx.check(info[0] == both[0], 'cipher:preference', '%s: %s was used, %s expected' % (what, info[0], both[0]))
                    else:
                        ctx.check(not ok, 'cipher:uncommon', '%s: nothing in common but %s was used' % (what, info and info[0]))
                    ctx.case(('1.2', kind, bool(dh), both[:1], len(offer)), sample=what)
                for k in range(max(1, each // 4)):
                    offer = rng.sample(C13, rng.randrange(1, len(C13) + 1))
                    both = [c for c in suites if c in offer]
                    rc, out = sclient(s, '-tls1_3', '-brief', '-ciphersuites', ':'.join(offer))
                    m = re.search(r'^Ciphersuite: (\S+)', out, re.M)
                    got = m and m.group(1)
                    what = 'server %s, client %s' % (':'.join(suites), ':'.join(offer))
                    ctx.check(got == (both[0] if both else None), 'suite:preference', '%s: %s was used, %s expected' % (what, got, both[:1]))
                    ctx.case(('1.3', both[:1], len(offer), len(suites)), sample=what)
                # a client with the usual suites in the usual order
                both = [c for c in suites if c in C13[:3]]
                ok, info = attempt(ctx, s, context('1.3'), rng)
                ctx.check((info[0] if ok else None) == (both[0] if both else None), 'suite:usual', 'server %s: %s was used' % (':'.join(suites), info and info[0]))
                end(ctx, s)


def groups(ctx, variant, bits):
    """Ephemeral Diffie-Hellman takes place in the configured group."""
    with Pki() as p:
        p.cert('ca', ca=True)
        p.cert('srv', 'ca', kind='rsa')
        for b in bits:
            dh = RES + '/dhparam.pem'
            if b != 2048:
                p.run('genpkey', '-genparam', '-algorithm', 'DH', '-pkeyopt', 'group:ffdhe%d' % b, '-out', 'dh%d.pem' % b)
                dh = p.path('dh%d.pem' % b)
            with ctx.server(variant, material(p, 'srv', dhparam=dh), tls=True) as s:
                for cipher in ('DHE-RSA-AES256-GCM-SHA384', 'DHE-RSA-AES128-SHA256'):
                    rc, out = sclient(s, '-tls1_2', '-cipher', cipher)
                    m = re.search(r'Server Temp Key: (.*)', out)
                    ctx.check(m and m.group(1).strip() == 'DH, %d bits' % b, 'dh:group', 'dhparam of %d bits, %s: %s' % (b, cipher, m and m.group(1) or short(out.encode()[-300:])))
                    ctx.case(('dh', b, cipher), sample='%d bits' % b)
                end(ctx, s)


VALID = ['plain', 'client', 'chain', 'long', 'rsa', 'p384', 'ed', 'any']
INVALID = ['none', 'foreign', 'same', 'self', 'old', 'soon', 'usage', 'issued', 'missing', 'tampered', 'critical', 'oldchain', 'server']


def people(p):
    """Certificates of clients of which we know whether they are good."""
    p.cert('ca', ca=True, subject='authority')
    p.cert('other', ca=True)
    p.cert('fake', ca=True, subject='authority')       # the same name, another key
    p.cert('mid', 'ca', ca=True)
    p.cert('mid2', 'mid', ca=True)
    p.cert('oldmid', 'ca', ca=True, end='20210101000000Z')
    p.cert('server', kind='rsa')                       # not under the authority that clients need
    p.cert('plain', 'ca')
    p.cert('client', 'ca', usage='clientAuth')
    p.cert('any', 'ca', usage='serverAuth,clientAuth')
    p.cert('rsa', 'ca', kind='rsa')
    p.cert('p384', 'ca', kind='P-384')
    p.cert('ed', 'ca', kind='ed25519')
    p.cert('chain', 'mid')
    p.cert('long', 'mid2', alt=','.join('DNS:h%d.example.org' % i for i in range(1200)))
    p.cert('foreign', 'other')
    p.cert('same', 'fake')
    p.cert('self')
    p.cert('old', 'ca', end='20210101000000Z')
    p.cert('soon', 'ca', start='20980101000000Z')
    p.cert('usage', 'ca', usage='serverAuth')
    p.cert('issued', 'plain')                          # by somebody who is no authority
    p.cert('missing', 'mid')
    p.cert('critical', 'ca', critical=True)
    p.cert('oldchain', 'oldmid')
    p.cert('tampered', 'ca')
    der = bytearray(p.der('tampered'))
    der[-1] ^= 1
    import base64
    p.write('tampered.pem', '-----BEGIN CERTIFICATE-----\n%s-----END CERTIFICATE-----\n' % base64.encodebytes(bytes(der)).decode())
    for n, more in (('chain', 'mid'), ('long', 'mid2'), ('issued', 'plain'), ('oldchain', 'oldmid')):
        up = p.text(more + '.pem') + (p.text('mid.pem') if more == 'mid2' else '')
        p.write(n + '.full.pem', p.text(n + '.pem') + up)


def pair(p, name):
    if name == 'none':
        return None
    f = p.path(name + '.full.pem')
    return (f if os.path.exists(f) else p.path(name + '.pem'), p.path(name + '.key'))


class Gate:
    """Clients with all kinds of certificates, and the count of those that may have been let in."""
    def __init__(self, ctx, s, p, required, more=()):
        self.ctx, self.s, self.p, self.required, self.more = ctx, s, p, required, more
        self.contexts, self.lock, self.entered = {}, threading.Lock(), 0

    def client(self, name, v):
        with self.lock:
            if (name, v) not in self.contexts:
                self.contexts[name, v] = context(v, pair=pair(self.p, name))
            return self.contexts[name, v]

    def visit(self, name, v, rng, proto='echo', seg=None):
        welcome = name in VALID or name in self.more or not self.required
        if welcome and proto == 'rec':
            with self.lock:
                self.entered += 1
        ctx = self.ctx
        what = 'client certificate %s, TLS %s, certificates %srequired' % (name, v or 'any', '' if self.required else 'not ')
        try:
            c = Client(self.s.https, tls=self.client(name, v), timeout=PATIENCE, cut=seg)
        except REFUSED as e:
            ctx.check(not welcome, 'peer:refused', '%s: refused (%s)' % (what, e))
            ctx.case((name, v, proto, self.required, bool(seg), 'tls'), sample=what)
            return
        try:
            try:
                c.sock.cut = None
                c.handshake(protocols=proto, timeout=PATIENCE)
            except REFUSED as e:
                ctx.check(not welcome, 'peer:refused', '%s: refused (%s)' % (what, e))
                ctx.case((name, v, proto, self.required, bool(seg), 'late'), sample=what)
                return
            ctx.check(welcome, 'peer:admitted', '%s: the handshake was answered' % what)
            d = blob(rng, rng.choice([1, 1000, 30000]))
            if proto == 'echo':
                c.send(frame(BIN, d))
                ctx.check(c.read_event(PATIENCE) == (BIN, d), 'peer:echo', '%s: wrong answer' % what)
            ctx.check(c.goodbye() == 1000, 'peer:goodbye', '%s: wrong status' % what)
            ctx.case((name, v, proto, self.required, bool(seg), 'in'), sample=what)
        finally:
            c.close()


def peers(ctx, variant, rounds, required=True, folder=False, threads=1, chaos=None, workers=3):
    """Who may come in when certificates are required, and that everybody may when they are not."""
    rng = ctx.rng
    with Pki() as p:
        people(p)
        conf = material(p, 'server', peer_cert=required)
        if folder == 'both':
            # one of them here, the other one there
            a, b = rng.sample(['ca', 'other'], 2)
            conf['setup']['ssl'].update({'ca_file': p.path(a + '.pem'), 'ca_path': p.folder('trusted', b)})
        elif folder:
            conf['setup']['ssl'].update({'ca_file': None, 'ca_path': p.folder('trusted', 'ca')})
        conf['setup']['pool']['workers'] = workers
        with ctx.server(variant, conf, tls=True, rec=True, chaos=chaos) as s:
            attempt(ctx, s, context(pair=pair(p, 'plain')), rng)
            base = s.settled()
            g = Gate(ctx, s, p, required, ['foreign'] if folder == 'both' else [])

            def run(r):
                for k in range(rounds):
                    names = VALID + INVALID
                    r.shuffle(names)
                    for n in names:
                        g.visit(n, r.choice(['1.2', '1.3', None]), r, r.choice(['echo', 'rec']), r.choice([None, None, [1], [50], [3, 700]]))
            parallel(ctx, [lambda r=random.Random(rng.random()): run(r) for _ in range(threads)])
            gc.collect()
            now = s.settled(len(base))
            ctx.check(len(now) <= len(base), 'peer:descriptors', '%s instead of %s' % (now, base))
            end_ = time.monotonic() + 5
            while True:
                got = sum(1 for e in s.events() if e[0] == 'CONNECT')
                if got >= g.entered or time.monotonic() > end_:
                    break
                time.sleep(0.05)
            ctx.check(got == g.entered, 'peer:sessions', '%d sessions reached the subprotocol, %d were welcome' % (got, g.entered))
            ctx.count('welcome', g.entered)
            end(ctx, s)


def bystanders(ctx, variant, seconds, workers, chaos=None):
    """Connections of welcome clients go on undisturbed while others fail their handshakes on the same workers."""
    rng = ctx.rng
    with Pki() as p:
        people(p)
        conf = material(p, 'server', peer_cert=True)
        conf['setup']['pool']['workers'] = workers
        with ctx.server(variant, conf, tls=True, chaos=chaos) as s:
            attempt(ctx, s, context(pair=pair(p, 'plain')), rng)
            base = s.settled()
            g = Gate(ctx, s, p, True)
            stop = time.monotonic() + seconds

            def good(r):
                k = 0
                name, v = r.choice(VALID), r.choice(['1.2', '1.3'])
                c = Client(s.https, tls=g.client(name, v), timeout=PATIENCE)
                c.handshake(protocols='echo', timeout=PATIENCE)
                while time.monotonic() < stop:
                    d = b'%d ' % k + blob(r, r.choice([0, 10, 20000, 100000]))
                    c.send(frame(BIN, d))
                    try:
                        e = c.read_event(PATIENCE)
                    except Closed as x:
                        raise Violation('bystander:closed', 'the connection of a welcome client ended after %d messages while others were refused' % k)
                    ctx.check(e == (BIN, d), 'bystander:echo', 'wrong answer')
                    k += 1
                    ctx.case(('bystander', name, v, min(k, 20)), sample='message %d next to refused clients' % k)
                ctx.check(c.goodbye() == 1000, 'bystander:goodbye', 'wrong status')

            def bad(r):
                while time.monotonic() < stop:
                    k = r.random()
                    if k < 0.7:
                        g.visit(r.choice(INVALID), r.choice(['1.2', '1.3', None]), r)
                    elif k < 0.85:
                        x = socket.create_connection(('127.0.0.1', s.https), PATIENCE)
                        x.sendall(r.choice([b'GET / HTTP/1.1\r\n\r\n', r.randbytes(100), b'\x16\x03\x01\x00\x05' + r.randbytes(5)]))
                        x.close()
                    else:
                        try:
                            Client(s.https, tls=context('1.2', 'ECDHE-ECDSA-AES128-GCM-SHA256:@SECLEVEL=0'), timeout=PATIENCE).close()
                            raise Violation('bystander:cipher', 'a client whose ciphers do not fit the key was let in')
                        except REFUSED:
                            pass
            parallel(ctx, [lambda r=random.Random(rng.random()): good(r) for _ in range(4)] + [lambda r=random.Random(rng.random()): bad(r) for _ in range(4)])
            gc.collect()
            now = s.settled(len(base))
            ctx.check(len(now) <= len(base), 'bystander:descriptors', '%d descriptors instead of %d: %s' % (len(now), len(base), now))
            end(ctx, s)


def fresh(ctx, variant, n):
    """No session of the past is taken up again, neither by its identity nor by a ticket."""
    rng = ctx.rng
    with Pki() as p:
        people(p)
        for required in (False, True):
            with ctx.server(variant, material(p, 'server', peer_cert=required), tls=True) as s:
                for k in range(n):
                    v = rng.choice(['1.2', '1.3'])
                    t = context(v, pair=pair(p, rng.choice(VALID)))
                    sess = None
                    for i in range(3):
                        c = Client(s.https, tls=t, timeout=PATIENCE, session=sess)
                        c.handshake(timeout=PATIENCE)
                        ctx.check(not c.sock.obj.session_reused, 'fresh:resumed', 'TLS %s: connection %d took up an earlier session' % (v, i))
                        sess = c.sock.obj.session
                        c.send(frame(TEXT, b'x'))
                        ctx.check(c.read_event(PATIENCE) == (TEXT, b'x'), 'fresh:echo', 'wrong answer')
                        sess = c.sock.obj.session
                        ctx.check(not sess.has_ticket, 'fresh:ticket', 'TLS %s: the server handed out a session ticket' % v)
                        ctx.check(c.goodbye() == 1000, 'fresh:goodbye', 'wrong status')
                        ctx.case(('fresh', v, required, i), sample='TLS %s, connection %d' % (v, i))
                end(ctx, s)


def unusable(ctx, variant, tries, busy=False, chaos=None):
    """With keys, certificates or ciphers that cannot be used the server does not start, in place of
    starting with others."""
    rng = ctx.rng
    with Pki() as p:
        p.cert('ca', ca=True)
        p.cert('srv', 'ca', kind='rsa')
        p.cert('ec', 'ca')
        p.cert('rsa2', 'ca', kind='rsa')
        p.write('empty', '')
        p.write('garbage', 'no key at all\n' * 20)
        p.write('cut', p.text('srv.pem')[:300])
        p.write('cutkey', p.text('srv.key')[:300])
        os.mkdir(p.path('folder'))
        P = p.path
        bad = [('key that does not fit', {'key': P('rsa2.key')}), ('key of another kind', {'key': P('ec.key')}), ('no key file', {'key': P('nothing')}),
               ('no certificate file', {'cert': P('nothing')}), ('no authorities file', {'ca_file': P('nothing')}), ('empty key', {'key': P('empty')}),
               ('empty certificate', {'cert': P('empty')}), ('empty authorities', {'ca_file': P('empty')}), ('garbage key', {'key': P('garbage')}),
               ('garbage certificate', {'cert': P('garbage')}), ('garbage authorities', {'ca_file': P('garbage')}), ('cut certificate', {'cert': P('cut')}),
               ('cut key', {'key': P('cutkey')}), ('certificate as key', {'key': P('srv.pem')}), ('key as certificate', {'cert': P('srv.key')}),
               ('key as authorities', {'ca_file': P('srv.key')}), ('folder as key', {'key': P('folder')}), ('folder as certificate', {'cert': P('folder')}),
               ('certificate of another key', {'cert': P('rsa2.pem')}), ('certificate of another kind', {'cert': P('ec.pem')}),
               ('unknown ciphers', {'cipher_list': 'NO-SUCH-CIPHER'}), ('no ciphers', {'cipher_list': '-ALL'}), ('unknown cipher suites', {'cipher_suites': 'TLS_NO_SUCH_SUITE'}),
               ('unreadable cipher list', {'cipher_list': 'FOO:BAR:+'})]
        bad.append(('port in use', {}))
        if tries < len(bad):
            bad = rng.sample(bad, tries)
        for what, d in bad:
            with ctx.server(variant, material(p, 'srv', **d), tls=True, start=False, push=2 if busy else None, chaos=chaos) as s:
                s.http, s.https = free_ports(2)
                taken = None
                if what == 'port in use':
                    taken = socket.socket(socket.AF_INET6, socket.SOCK_STREAM)
                    taken.bind(('::', s.https))
                    taken.listen(1)
                s.fixed_ports = (s.http, s.https)
                done = threading.Event()

                def knock(r):
                    """Somebody who uses the plain port as soon as it is there."""
                    while not done.is_set():
                        try:
                            with Client(s.http, timeout=5) as c:
                                c.handshake(protocols=r.choice(['echo', 'push', None]), timeout=5)
                                ctx.count('served_while_failing')
                                c.send(frame(TEXT, b'x' * 100))
                                c.read_event(5)
                        except (Closed, OSError, Timeout, ProtocolError):
                            pass
                ts = [threading.Thread(target=knock, args=(random.Random(rng.random()),)) for _ in range(4 if busy else 0)]
                for t in ts:
                    t.start()
                try:
                    s.start()
                    started = True
                except StartError as e:
                    started = False
                    ctx.check('exit status 1' in str(e).split('\n')[0], 'unusable:end', '%s: %s' % (what, str(e)[:600]))
                finally:
                    done.set()
                    for t in ts:
                        t.join()
                    if taken:
                        taken.close()
                ctx.check(not started, 'unusable:started', '%s: the server started' % what)
                rep = s.reports()
                ctx.check(not rep, 'unusable:sanitizer', '%s: %s' % (what, s.report_text()[:1500]))
                s.proc = None
                ctx.case(('unusable', what, busy), sample=what)


def partial(ctx, variant):
    """TLS is offered if key, certificate and authorities are configured, and only then; plain connections always are."""
    rng = ctx.rng
    with Pki() as p:
        p.cert('ca', ca=True)
        p.cert('srv', 'ca')
        path = p.folder('trusted', 'ca')
        for bits in range(16):
            d = {}
            for i, (k, v) in enumerate((('key', p.path('srv.key')), ('cert', p.path('srv.pem')), ('ca_file', p.path('ca.pem')), ('ca_path', path))):
                if bits >> i & 1:
                    d[k] = v
            full = bits & 3 == 3 and bits & 12 != 0
            with ctx.server(variant, {'setup': {'ssl': d}}, tls=full, start=False) as s:
                s.conf['setup']['ssl'] = d
                s.start()
                c = Client(s.http, timeout=PATIENCE)
                c.handshake(timeout=PATIENCE)
                c.send(frame(TEXT, b'plain'))
                ctx.check(c.read_event(PATIENCE) == (TEXT, b'plain'), 'partial:plain', '%s: wrong answer over plain TCP' % sorted(d))
                ctx.check(c.goodbye() == 1000, 'partial:goodbye', 'wrong status')
                if full:
                    ok, info = attempt(ctx, s, context(trust=p.path('ca.pem')), rng)
                    ctx.check(ok, 'partial:tls', '%s: no TLS connection' % sorted(d))
                else:
                    ctx.check(not s.listening(s.https), 'partial:listening', '%s: the port for TLS is open' % sorted(d))
                ctx.case(('partial', bits), sample='%s' % sorted(d))
                end(ctx, s)


def scenarios(tier, rng):
    deep = tier == 'thorough'
    k = 12 if deep else 2
    out = []
    out.append(Scenario('identity', identity, variant='rel', kinds=['rsa', 'ec', 'P-384', 'ec'] * k))
    out.append(Scenario('identity-poll', identity, variant='poll', kinds=['rsa', 'ec'] * k))
    out.append(Scenario('identity-asan', identity, variant='asan', kinds=['ec'] * k))
    out.append(Scenario('preference-0', preference, variant='rel', policies=5 * k, each=12))
    out.append(Scenario('preference-1', preference, variant='rel', policies=5 * k, each=12))
    out.append(Scenario('preference-2', preference, variant='rel', policies=5 * k, each=12))
    out.append(Scenario('preference-asan', preference, variant='asan', policies=1 * k, each=12))
    out.append(Scenario('groups', groups, variant='rel', bits=[2048, 3072, 4096]))
    out.append(Scenario('peers', peers, variant='rel', rounds=2 * k))
    out.append(Scenario('peers-poll', peers, variant='poll', rounds=1 * k, folder=True, threads=2))
    out.append(Scenario('peers-folder', peers, variant='rel', rounds=1 * k, folder=True, threads=2))
    out.append(Scenario('peers-both', peers, variant='rel', rounds=1 * k, folder='both', threads=2))
    out.append(Scenario('peers-open', peers, variant='rel', rounds=1 * k, required=False, threads=2))
    out.append(Scenario('peers-many', peers, variant='rel', rounds=1 * k, threads=6, workers=1))
    out.append(Scenario('peers-faults', peers, variant='relc', rounds=1 * k, threads=4, chaos=(30, 300, 30)))
    out.append(Scenario('peers-asan', peers, variant='asan', rounds=1 * k, threads=3))
    out.append(Scenario('peers-tsan', peers, variant='tsan', rounds=1 * k, threads=3))
    out.append(Scenario('bystanders-1', bystanders, variant='rel', seconds=60 if deep else 5, workers=1))
    out.append(Scenario('bystanders-3', bystanders, variant='rel', seconds=60 if deep else 4, workers=3))
    out.append(Scenario('bystanders-asan', bystanders, variant='asan', seconds=60 if deep else 5, workers=2))
    out.append(Scenario('bystanders-faults', bystanders, variant='relc', seconds=60 if deep else 5, workers=1, chaos=(30, 300, 30)))
    out.append(Scenario('bystanders-tsan', bystanders, variant='tsan', seconds=60 if deep else 5, workers=3))
    out.append(Scenario('fresh', fresh, variant='rel', n=6 * k))
    out.append(Scenario('unusable', unusable, variant='rel', tries=99))
    out.append(Scenario('unusable-asan', unusable, variant='asan', tries=99 if deep else 8))
    out.append(Scenario('unusable-tsan', unusable, variant='tsan', tries=99 if deep else 4))
    out.append(Scenario('unusable-busy', unusable, variant='rel', tries=99 if deep else 10, busy=True))
    out.append(Scenario('unusable-busy-asan', unusable, variant='asan', tries=99 if deep else 5, busy=True))
    out.append(Scenario('unusable-busy-delays', unusable, variant='relc', tries=99 if deep else 5, busy=True, chaos=(300, 3000, 0)))
    out.append(Scenario('unusable-busy-tsan', unusable, variant='tsan', tries=99 if deep else 3, busy=True))
    out.append(Scenario('partial', partial, variant='rel'))
    return out
