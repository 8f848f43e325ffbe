"""A small server runner and websocket client for demonstrations."""
import base64
import hashlib
import json
import os
import shutil
import signal
import socket
import ssl
import struct
import subprocess
import sys
import tempfile
import time

REPO = '/repo'
TEXT, BIN, CLOSE, PING, PONG = 1, 2, 8, 9, 10


def free_port():
    import random
    while True:
        p = random.SystemRandom().randint(12000, 31000)
        s = socket.socket(socket.AF_INET6)
        try:
            s.bind(('::', p))
            return p
        except OSError:
            pass
        finally:
            s.close()


class Server:
    """The release server of the repository in a scratch directory."""
    def __init__(self, setup=None, tls=False, top=None, exe=REPO + '/_build/bin/release/WSServer', deflate=None):
        for attempt in range(5):
            self.dir = tempfile.mkdtemp(prefix='demo-')
            os.mkdir(self.dir + '/log')
            self.http, self.https = free_port(), free_port()
            st = {'log_level': 1, 'subprotocols': [{'file': REPO + '/subprotocols/%s/%s.so' % (n, n), 'config': ''} for n in ('echo', 'broadcast')],
                  'port': {'http': self.http, 'https': self.https}}
            if deflate is not None:
                st['extensions'] = [{'file': REPO + '/extensions/permessage-deflate/permessage-deflate.so', 'config': deflate}]
            if tls:
                r = REPO + '/resources/'
                st['ssl'] = {'key': r + 'wsserver.key', 'cert': r + 'wsserver.crt', 'ca_file': r + 'rootCA.crt', 'dhparam': r + 'dhparam.pem'}
            st.update(setup or {})
            c = {'setup': st}
            c.update(top or {})
            with open(self.dir + '/c.json', 'w') as f:
                json.dump(c, f)
            self.p = subprocess.Popen([exe, '-c', self.dir + '/c.json'], cwd=self.dir, stdin=subprocess.DEVNULL,
                                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            end = time.time() + 20
            while time.time() < end and self.p.poll() is None:
                try:
                    socket.create_connection(('127.0.0.1', self.http), 1).close()
                    time.sleep(0.3)
                    if self.p.poll() is None:
                        return
                except OSError:
                    time.sleep(0.05)
            self.stop()
        raise SystemExit('server does not start')

    def alive(self):
        return self.p.poll() is None

    def stop(self, timeout=60):
        """Exit status after an interrupt, None if it had to be killed."""
        if self.p.poll() is None:
            self.p.send_signal(signal.SIGINT)
            try:
                self.p.wait(timeout)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
                shutil.rmtree(self.dir, ignore_errors=True)
                return None
        shutil.rmtree(self.dir, ignore_errors=True)
        return self.p.returncode


def frame(op, data=b'', fin=True, rsv=0, key=b'\x12\x34\x56\x78'):
    n = len(data)
    h = bytes([(0x80 if fin else 0) | rsv << 4 | op])
    h += bytes([0x80 | n]) if n < 126 else b'\xfe' + struct.pack('>H', n) if n < 65536 else b'\xff' + struct.pack('>Q', n)
    k = (key * (n // 4 + 1))[:n]
    return h + key + (int.from_bytes(data, 'big') ^ int.from_bytes(k, 'big')).to_bytes(n, 'big')


class Client:
    def __init__(self, port, tls=False, timeout=15, rcvbuf=None):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.settimeout(timeout)
        self.s.connect(('127.0.0.1', port))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if tls:
            c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            c.check_hostname, c.verify_mode = False, ssl.CERT_NONE
            self.s = c.wrap_socket(self.s)
        self.port = port
        self.b = b''

    def fill(self):
        d = self.s.recv(65536)
        if not d:
            raise EOFError('end of stream')
        self.b += d

    def need(self, n):
        while len(self.b) < n:
            self.fill()
        d, self.b = self.b[:n], self.b[n:]
        return d

    def http(self, path='/', headers=(), upgrade=True, drop=(), raw=None):
        """(status line, headers as a dict of lower case names, body)"""
        key = base64.b64encode(os.urandom(16)).decode()
        h = [('Host', '127.0.0.1:%d' % self.port)]
        if upgrade:
            h += [('Upgrade', 'websocket'), ('Connection', 'Upgrade'), ('Sec-WebSocket-Key', key), ('Sec-WebSocket-Version', '13')]
        names = [k.lower() for k, v in headers]
        h = [x for x in h if x[0].lower() not in names and x[0] not in drop] + list(headers)
        self.s.sendall(raw or ('GET %s HTTP/1.1\r\n' % path + ''.join('%s: %s\r\n' % x for x in h) + '\r\n').encode('latin1'))
        while b'\r\n\r\n' not in self.b:
            self.fill()
        head, self.b = self.b.split(b'\r\n\r\n', 1)
        lines = head.decode('latin1').split('\r\n')
        d = {}
        for l in lines[1:]:
            k, _, v = l.partition(':')
            d[k.strip().lower()] = v.strip()
        if lines[0].split()[1] == '101':
            want = base64.b64encode(hashlib.sha1((key + '258EAFA5-E914-47DA-95CA-C5AB0DC85B11').encode()).digest()).decode()
            if d.get('sec-websocket-accept') != want:
                raise SystemExit('wrong accept key')
            return 101, d, b''
        return int(lines[0].split()[1]), d, self.need(int(d.get('content-length', 0)))

    def open(self, protocol=None, headers=(), path='/'):
        h = list(headers)
        if protocol:
            h.append(('Sec-WebSocket-Protocol', protocol))
        st, d, _ = self.http(path, h)
        if st != 101:
            raise SystemExit('handshake answered with %d' % st)
        return d

    def send(self, data):
        self.s.sendall(data)

    def raw(self):
        """(fin, rsv, opcode, payload) of the next frame"""
        a, b = self.need(2)
        n = b & 127
        if n == 126:
            n = struct.unpack('>H', self.need(2))[0]
        elif n == 127:
            n = struct.unpack('>Q', self.need(8))[0]
        return a >> 7, a >> 4 & 7, a & 15, self.need(n)

    def read(self):
        """(opcode, payload) of the next message or control frame"""
        op, data = None, b''
        while True:
            fin, rsv, o, d = self.raw()
            if o >= 8:
                return o, d
            if o:
                op = o
            data += d
            if fin:
                return op, data

    def close(self):
        self.s.close()


def fail(what):
    print('FAILED:', what)
    sys.stdout.flush()
    sys.exit(1)
