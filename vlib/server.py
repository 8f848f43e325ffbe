"""Runs an instrumented server in a scratch directory and observes it."""
import glob
import json
import os
import random
import re
import shutil
import signal
import socket
import subprocess
import tempfile
import time

from . import build as B

RES = os.path.join(B.REPO, 'resources')

SUPP_TSAN = os.path.join(B.VERIF, 'vlib', 'tsan.supp')


def free_ports(n):
    socks, ports = [], []
    while len(ports) < n:
        s = socket.socket(socket.AF_INET6, socket.SOCK_STREAM)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        p = random.SystemRandom().randint(12000, 31000)
        try:
            s.bind(('::', p))
        except OSError:
            s.close()
            continue
        socks.append(s)
        ports.append(p)
    for s in socks:
        s.close()
    return ports


class StartError(Exception):
    pass


import copy


DEFAULT = {
    'hosts': [], 'paths': [], 'queries': [], 'origins': [],
    'setup': {
        'log_level': 1,
        'subprotocols': ['echo', 'broadcast'],
        'extensions': [],
        'timeouts': {'poll': -1, 'read': -1, 'write': -1, 'client': -1, 'pings': 0},
        'size': {'payload': 16777215, 'header': 8192, 'uri': 8192, 'buffer': 32768, 'thread': 2097152,
                 'ringbuffer': 1024, 'frame': 1048576, 'fragmented': 1048576},
        'pool': {'workers': 4},
    },
}


def merged(a, b):
    out = dict(a)
    for k, v in (b or {}).items():
        out[k] = merged(a[k], v) if isinstance(v, dict) and isinstance(a.get(k), dict) else v
    return out


class Report:
    """A sanitizer report found in the logs."""
    def __init__(self, tool, kind, frames, text):
        self.tool, self.kind, self.frames, self.text = tool, kind, frames, text

    @property
    def signature(self):
        return '%s:%s:%s' % (self.tool, self.kind, '<'.join(self.frames[:3]))

    def __repr__(self):
        return self.signature


FRAME = re.compile(r'^\s+#\d+ (?:0x[0-9a-f]+ in )?(\S+) (\S*)', re.M)


def own_frames(text):
    out = []
    for m in FRAME.finditer(text):
        if re.search(r'/(src|include|extensions|subprotocols|harness|plugin)/[^ ]*\.[ch]', m.group(2)):
            out.append(m.group(1))
    return out


def parse_reports(text):
    reps = []
    for m in re.finditer(r'==\d+==\s*ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]*)(.*?)(?=\n==\d+==\s*ERROR|\Z)', text, re.S):
        tool = 'asan' if m.group(1) == 'AddressSanitizer' else 'lsan'
        kind = m.group(2).split(' on ')[0].split(' (')[0].strip().replace(' ', '-')
        if tool == 'lsan':
            blocks = re.findall(r'(?:Direct|Indirect) leak of \d+ byte.*?(?=\n\n|\Z)', m.group(3), re.S)
            direct = [b for b in blocks if b.startswith('Direct')] or blocks
            for b in direct:
                reps.append(Report('lsan', 'leak', [f for f in own_frames(b) if not f.startswith('WSS_malloc')
                                                    and not f.startswith('WSS_realloc') and not f.startswith('WSS_calloc')], b))
        else:
            reps.append(Report(tool, kind, own_frames(m.group(3)), m.group(0)))
    for m in re.finditer(r'([^\n]*): runtime error: ([^\n]*)(.*?)(?=\n[^\n]*: runtime error: |\Z)', text, re.S):
        loc = os.path.basename(m.group(1).split(':')[0])
        kind = re.sub(r"0x[0-9a-f]+|-?\d+", 'N', m.group(2))[:60].replace(' ', '_')
        fr = own_frames(m.group(3)) or [loc]
        reps.append(Report('ubsan', kind, fr, m.group(0)))
    for m in re.finditer(r'WARNING: ThreadSanitizer: ([^\n(]*).*?(?==================|\Z)', text, re.S):
        reps.append(Report('tsan', m.group(1).strip().replace(' ', '-'), own_frames(m.group(0)), m.group(0)))
    for m in re.finditer(r'==\d+==\s*ERROR: ThreadSanitizer: ([^\n]*)', text):
        reps.append(Report('tsan', m.group(1).split(' on ')[0].replace(' ', '-'), [], text[m.start():m.start() + 4000]))
    for m in re.finditer(r'==\d+==\s*WARNING: MemorySanitizer: ([^\n]*)(.*?)(?=\n==\d+==\s*WARNING|\Z)', text, re.S):
        reps.append(Report('msan', m.group(1).strip().replace(' ', '-'), own_frames(m.group(2).split('Uninitialized value was')[0]), m.group(0)))
    # memcheck
    for m in re.finditer(r'==\d+== (Invalid (?:read|write|free)[^\n]*|Conditional jump[^\n]*|Use of uninit[^\n]*|Syscall param[^\n]*|Mismatched free[^\n]*|Source and destination overlap[^\n]*|Process terminating[^\n]*)(.*?)(?=\n==\d+== \n|\Z)', text, re.S):
        fr = re.findall(r'(?:at|by) 0x[0-9A-F]+: (\S+) \((\w+\.c):\d+\)', m.group(2))
        reps.append(Report('memcheck', re.sub(r'0x[0-9a-f]+|\d+', 'N', m.group(1))[:50].strip().replace(' ', '-'), [f for f, src in fr if os.path.exists(os.path.join(B.REPO, 'src', src)) or src in ('echo.c', 'broadcast.c', 'permessage-deflate.c', 'rec.c', 'push.c', 'spy.c')], m.group(0)))
    return reps


class Server:
    def __init__(self, variant='rel', conf=None, tls=False, rec=False, rec_sink=False, deflate=None, echo_default=True,
                 start=True, env=None, wrapper=None, keep_log=False, extra_protos=(), no_protos=False, wait=20, leaks=True,
                 nofile=None, ports=None, bad_ok=False, push=None, extensions=None):
        self.variant = variant
        self.bdir = B.build(variant)
        self.dir = tempfile.mkdtemp(prefix='wssv-')
        os.mkdir(os.path.join(self.dir, 'log'))
        self.rec_log = os.path.join(self.dir, 'rec.log')
        c = copy.deepcopy(merged(DEFAULT, conf))
        st = c['setup']
        subs = []
        if not no_protos:
            for s in st['subprotocols']:
                subs.append({'file': os.path.join(self.bdir, s + '.so'), 'config': ''} if isinstance(s, str) else s)
            if rec:
                names = ['rec'] if rec is True else rec
                for n in names:
                    dst = os.path.join(self.dir, n + '.so')
                    shutil.copy(os.path.join(self.bdir, 'rec.so'), dst)
                    log = self.rec_log if n == 'rec' else os.path.join(self.dir, n + '.log')
                    subs.append({'file': dst, 'config': log + (';sink' if rec_sink else '')})
            if push:
                subs.append({'file': os.path.join(self.bdir, 'push.so'), 'config': 'threads=%d' % push})
        st['subprotocols'] = subs
        for n, cfg in extensions or ():
            # several instances of one extension under different names
            dst = os.path.join(self.dir, n + '.so')
            shutil.copy(os.path.join(self.bdir, ('permessage-deflate' if n == 'permessage-deflate' else 'spy') + '.so'), dst)
            st.setdefault('extensions', []).append({'file': dst, 'config': cfg.replace('@', self.dir + '/')})
        if deflate is not None:
            st['extensions'] = [{'file': os.path.join(self.bdir, 'permessage-deflate.so'), 'config': deflate}]
        self.tls = tls
        if tls:
            st['ssl'] = merged({'key': RES + '/wsserver.key', 'cert': RES + '/wsserver.crt', 'ca_file': RES + '/rootCA.crt',
                                'dhparam': RES + '/dhparam.pem'}, st.get('ssl'))
        self.conf = c
        self.fixed_ports = ports
        self.env = env or {}
        self.wrapper = wrapper or []
        self.leaks = leaks
        self.nofile = nofile
        self.proc = None
        self.exit = None
        self.wait = wait
        if start:
            self.start()

    @property
    def frame_size(self):
        return self.conf['setup']['size']['frame']

    def environment(self):
        e = dict(os.environ)
        log = os.path.join(self.dir, 'san')
        e['ASAN_OPTIONS'] = ('log_path=%s:detect_leaks=%d:handle_segv=2:handle_sigill=2:handle_sigfpe=2:handle_abort=1:'
                             'allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=0:'
                             'abort_on_error=0:exitcode=77:malloc_context_size=20:quarantine_size_mb=64'
                             % (log, 1 if self.leaks else 0))
        e['UBSAN_OPTIONS'] = 'log_path=%s:print_stacktrace=1:halt_on_error=1:exitcode=77' % log
        e['LSAN_OPTIONS'] = 'log_path=%s:exitcode=77' % log
        e['MSAN_OPTIONS'] = 'log_path=%s:exitcode=77:handle_segv=2:halt_on_error=1' % log
        e['TSAN_OPTIONS'] = ('log_path=%s:halt_on_error=0:exitcode=0:second_deadlock_stack=1:handle_segv=2:history_size=4:'
                             'report_signal_unsafe=1:suppressions=%s' % (log, SUPP_TSAN))
        e.update(self.env)
        return e

    def write_config(self, path=None):
        path = path or os.path.join(self.dir, 'config.json')
        with open(path, 'w') as f:
            json.dump(self.conf, f)
        return path

    def start(self):
        last = ''
        for attempt in range(4):
            self.attempts = attempt + 1
            self.http, self.https = self.fixed_ports or free_ports(2)
            self.conf['setup']['port'] = {'http': self.http, 'https': self.https}
            cfg = self.write_config()
            self.stderr = open(os.path.join(self.dir, 'stderr'), 'ab')

            def limits():
                import resource
                if not os.environ.get('WSS_CORES'):
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                if self.nofile:
                    resource.setrlimit(resource.RLIMIT_NOFILE, (self.nofile, self.nofile))

            self.proc = subprocess.Popen(self.wrapper + [os.path.join(self.bdir, 'WSServer'), '-c', cfg], cwd=self.dir,
                                         stdin=subprocess.DEVNULL, stdout=self.stderr, stderr=self.stderr,
                                         env=self.environment(), preexec_fn=limits)
            end = time.monotonic() + self.wait * (6 if self.wrapper else 1)
            up = False
            while time.monotonic() < end and self.proc.poll() is None:
                if self.listening(self.http) and (not self.tls or self.listening(self.https)):
                    up = True
                    break
                time.sleep(0.01)
            if up and self.proc.poll() is None:
                self.started = time.monotonic()
                return self
            if self.proc.poll() is None:
                self.proc.kill()
                self.proc.wait()
                last = 'not listening after %d s' % self.wait
            else:
                last = 'exit status %s' % self.proc.returncode
            if self.reports():
                break
        raise StartError('server did not start: %s\n%s\n%s' % (last, self.tail_log(), self.report_text()[:3000]))

    def listening(self, port):
        """Looks for the listening socket without connecting to it. It must be the
        server's own: another one may have got the same port at the same time."""
        h = ':%04X' % port
        with open('/proc/net/tcp6') as f:
            inodes = {'socket:[%s]' % p[9] for p in (l.split() for l in f) if p[1].endswith(h) and p[3] == '0A'}
        if not inodes:
            return False
        d = '/proc/%d/fd' % self.proc.pid
        if self.wrapper:
            return True
        try:
            for n in os.listdir(d):
                try:
                    if os.readlink(os.path.join(d, n)) in inodes:
                        return True
                except OSError:
                    pass
        except OSError:
            pass
        return False

    @property
    def pid(self):
        return self.proc.pid

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def fds(self):
        """What its descriptors refer to, but for pipes (the sanitizers' symbolizers use some)."""
        out = []
        for f in os.listdir('/proc/%d/fd' % self.pid):
            try:
                x = os.readlink('/proc/%d/fd/%s' % (self.pid, f))
            except OSError:
                continue
            if not x.startswith('pipe:') and 'maps' not in x:
                out.append(x)
        return sorted(out)

    def settled(self, most=None, wait=20):
        """The descriptors, once they do not change or are as few as that."""
        end = time.monotonic() + wait
        x, since = self.fds(), time.monotonic()
        while time.monotonic() < end:
            if most is None and time.monotonic() - since > 0.15 or most is not None and len(x) <= most:
                break
            time.sleep(0.03)
            y = self.fds()
            if y != x:
                x, since = y, time.monotonic()
        return x

    def rss(self):
        with open('/proc/%d/statm' % self.pid) as f:
            return int(f.read().split()[1]) * 4096

    def threads(self):
        return len(os.listdir('/proc/%d/task' % self.pid))

    def interrupt(self):
        self.proc.send_signal(signal.SIGINT)

    def stop(self, timeout=30):
        """Interrupts the server; returns its exit status or None if it had to be killed."""
        if self.proc is None:
            return self.exit
        if self.proc.poll() is None:
            self.interrupt()
            try:
                self.proc.wait(timeout)
            except subprocess.TimeoutExpired:
                self.stuck = self.stacks()
                self.proc.kill()
                self.proc.wait()
                self.exit = None
                return None
        self.exit = self.proc.returncode
        return self.exit

    def cpu(self):
        """(all threads sleep, clock ticks used so far)"""
        t, asleep = 0, True
        for f in glob.glob('/proc/%d/task/*/stat' % self.pid):
            try:
                with open(f) as fh:
                    p = fh.read().rsplit(')', 1)[1].split()
                t += int(p[11]) + int(p[12])
                asleep = asleep and p[0] == 'S'
            except OSError:
                pass
        return asleep, t

    def idle(self, seconds=2.0):
        """Does no thread of the server want to run? Then waiting longer cannot help."""
        end = time.monotonic() + seconds
        _, t0 = self.cpu()
        while time.monotonic() < end:
            asleep, t = self.cpu()
            if not asleep or t > t0:
                return False
            time.sleep(0.1)
        return True

    def stacks(self):
        """What the threads of a stuck server wait for."""
        try:
            p = subprocess.run(['gdb', '-p', str(self.pid), '-batch', '-ex', 'thread apply all bt 12'],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60, text=True, errors='replace')
            return p.stdout[-12000:]
        except Exception as e:
            return 'no stacks: %s' % e

    def kill(self):
        if self.proc is not None and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()

    def report_text(self):
        out = ''
        for f in sorted(glob.glob(os.path.join(self.dir, 'san.*'))):
            with open(f, errors='replace') as fh:
                out += fh.read()
        return out

    def reports(self):
        return parse_reports(self.report_text())

    def tail_log(self, n=2000):
        out = ''
        for f in ('stderr', 'log/WSServer.log'):
            try:
                with open(os.path.join(self.dir, f), errors='replace') as fh:
                    out += fh.read()[-n:]
            except OSError:
                pass
        return out

    def events(self, name=None):
        """The log of the recording subprotocol, parsed."""
        path = self.rec_log if name is None else os.path.join(self.dir, name + '.log')
        ev = []
        try:
            with open(path, errors='replace') as f:
                for l in f:
                    p = l.rstrip('\n').split(' ')
                    if len(p) >= 2 and p[0].isdigit():
                        ev.append(p[1:])
        except OSError:
            pass
        return ev

    def cleanup(self):
        self.kill()
        try:
            self.stderr.close()
        except Exception:
            pass
        keep = os.environ.get('WSS_CORES')
        if keep and any(n.startswith('core') for n in os.listdir(self.dir)):
            shutil.copytree(self.dir, os.path.join(keep, os.path.basename(self.dir)), dirs_exist_ok=True)
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.cleanup()
