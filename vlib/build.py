"""Builds instrumented variants of the code in /repo, from its current working
tree, into /verif/build/<variant>-<digest> (ignored by git, rebuilt whenever a
source or a flag changes)."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WSS_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

INC = ['-I%s/%s' % (REPO, d) for d in ('include', 'src', 'extensions', 'subprotocols')]
BASE = ['-std=c11', '-fPIC', '-fvisibility=hidden', '-D_DEFAULT_SOURCE', '-DUSE_OPENSSL',
        '-DWSS_SERVER_VERSION="v2.0.0"', '-DFIPS_mode_set(x)=(0)', '-g', '-w',
        '-fno-omit-frame-pointer', '-pthread', '-march=x86-64-v3']
LIBS = ['-pthread', '-lm', '-ldl', '-lssl', '-lcrypto']

VARIANTS = {
    # as shipped: optimised, with rpmalloc and logging compiled in as in the release
    'rel': ('gcc', ['-O3', '-funroll-loops', '-DNDEBUG', '-DUSE_RPMALLOC', '-fstack-protector']),
    # address and undefined behaviour sanitizers, system allocator
    'asan': ('clang', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                       '-fno-sanitize=function,pointer-overflow,nonnull-attribute', '-DVERIF_ASAN']),
    # the same for the other event loop and without a TLS library
    'asan2': ('clang', ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                        '-fno-sanitize=function,pointer-overflow,nonnull-attribute', '-DVERIF_ASAN', '-DUSE_POLL', '-UUSE_OPENSSL']),
    # uninitialised memory; without libraries that are not instrumented
    'msan': ('clang', ['-O1', '-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-sanitize-recover=memory', '-UUSE_OPENSSL', '-DVERIF_MSAN']),
    # the same with the real allocator of the server, undefined behaviour only
    'ubsan': ('clang', ['-O1', '-fsanitize=undefined', '-fno-sanitize-recover=undefined',
                        '-fno-sanitize=function,pointer-overflow,nonnull-attribute', '-DUSE_RPMALLOC']),
    # thread sanitizer
    'tsan': ('clang', ['-O1', '-fsanitize=thread', '-DVERIF_TSAN']),
    'tsanrp': ('clang', ['-O1', '-fsanitize=thread', '-DUSE_RPMALLOC', '-DVERIF_TSAN']),
    'tsan2': ('clang', ['-O1', '-fsanitize=thread', '-DVERIF_TSAN', '-DUSE_POLL', '-UUSE_OPENSSL']),
    # as shipped, but with delays and faults
    'relc': ('gcc', ['-O3', '-funroll-loops', '-DNDEBUG', '-DUSE_RPMALLOC', '-fstack-protector', '-DVERIF_CHAOS']),
    # the poll(2) event loop
    'poll': ('gcc', ['-O1', '-DNDEBUG', '-DUSE_RPMALLOC', '-DUSE_POLL']),
    # without a TLS library: the hash and encoding functions of the repository are used
    'nossl': ('gcc', ['-O1', '-DNDEBUG', '-DUSE_RPMALLOC', '-UUSE_OPENSSL']),
    # for valgrind
    'plain': ('gcc', ['-O1']),
    # the system allocator, whose blocks harness/count.c counts when it is preloaded
    'count': ('gcc', ['-O2', '-DNDEBUG']),
    # libFuzzer
    'fuzz': ('clang', ['-O1', '-fsanitize=address,undefined,fuzzer-no-link', '-fno-sanitize-recover=undefined',
                       '-fno-sanitize=function,pointer-overflow,nonnull-attribute', '-DVERIF_ASAN']),
}

# Linked with harness/chaos.c, which does nothing unless asked to
CHAOS = ('asan', 'asan2', 'tsan', 'tsanrp', 'tsan2', 'relc', 'poll')
WRAPPED = ['read', 'write', 'accept', 'epoll_wait', 'epoll_ctl', 'poll', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock',
           'pthread_rwlock_unlock', 'pthread_cond_signal', 'close', 'shutdown', 'SSL_read', 'SSL_write', 'SSL_do_handshake']

# Objects that make up everything except the program itself
PLUGINS = {
    'echo': 'subprotocols/echo',
    'broadcast': 'subprotocols/broadcast',
    'permessage-deflate': 'extensions/permessage-deflate',
}


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def sources_digest(extra):
    h = hashlib.sha256()
    for pat in ('src', 'include', 'extensions', 'subprotocols'):
        for f in sorted(glob.glob(os.path.join(REPO, pat, '**', '*.[ch]'), recursive=True)):
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
    for pat in ('plugin/*.c', 'harness/*.[ch]'):
        for f in sorted(glob.glob(os.path.join(VERIF, pat))):
            h.update(f.encode())
            with open(f, 'rb') as fh:
                h.update(fh.read())
    h.update(repr(extra).encode())
    return h.hexdigest()[:16]


def build(variant, harnesses=(), server=True):
    """Returns the directory of the build. Contains WSServer, <plugin>.so and the
    harnesses asked for."""
    cc, flags = VARIANTS[variant]
    tag = sources_digest((cc, flags, BASE, LIBS))
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, '%s-%s' % (variant, tag))
    with open(os.path.join(BUILD, '.lock-' + variant), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for old in glob.glob(os.path.join(BUILD, variant + '-*')):
            if old != out:
                shutil.rmtree(old, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
        jobs = []
        objs = []
        inst = list(BASE) + list(flags)
        top = os.path.join(REPO, 'src')
        srcs = sorted(glob.glob(os.path.join(top, '**', '*.c'), recursive=True))
        for s in srcs:
            o = os.path.join(out, os.path.relpath(s, top)[:-2].replace('/', '-') + '.o')
            if os.path.relpath(s, top) != 'main.c':
                objs.append(o)
            elif not server:
                continue
            if not os.path.exists(o):
                jobs.append([cc] + inst + INC + ['-c', s, '-o', o + '.tmp'])
        if server:
            for name, files in PLUGINS.items():
                so = os.path.join(out, name + '.so')
                if not os.path.exists(so):
                    jobs.append([cc] + inst + INC + ['-shared'] + sorted(glob.glob(os.path.join(REPO, files, '*.c'))) +
                                ['-o', so + '.tmp', '-lz'])
            for f in sorted(glob.glob(os.path.join(VERIF, 'plugin', '*.c'))):
                so = os.path.join(out, os.path.basename(f)[:-2] + '.so')
                if not os.path.exists(so):
                    jobs.append([cc] + inst + INC + ['-shared', f, '-o', so + '.tmp', '-lz'])

        def one(cmd):
            run(cmd)
            dst = cmd[cmd.index('-o') + 1]
            os.rename(dst, dst[:-4])

        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        link = [f.replace('fuzzer-no-link', 'fuzzer') for f in flags]
        exe = os.path.join(out, 'WSServer')
        if server and not os.path.exists(exe):
            lf = [f.replace(',fuzzer-no-link', '') for f in flags]
            if variant in CHAOS:
                c = os.path.join(out, 'chaos.obj')
                names = WRAPPED if '-UUSE_OPENSSL' not in flags else [w for w in WRAPPED if not w.startswith('SSL_')]
                run([cc] + inst + (['-DSSL'] if names is WRAPPED else []) + ['-c', os.path.join(VERIF, 'harness', 'chaos.c'), '-o', c])
                lf = lf + [c, '-Wl,' + ','.join('--wrap=' + w for w in names)]
            run([cc] + BASE + lf + objs + [os.path.join(out, 'main.o'), '-o', exe + '.tmp'] + LIBS)
            os.rename(exe + '.tmp', exe)
        so = os.path.join(out, 'count.preload')
        if variant == 'count' and not os.path.exists(so):
            run([cc, '-O2', '-fPIC', '-shared', '-fno-builtin', os.path.join(VERIF, 'harness', 'count.c'), '-o', so + '.tmp'])
            os.rename(so + '.tmp', so)
        hj = []
        # what a harness does not name is there if what it names needs it
        ar = os.path.join(out, 'rest.a')
        if harnesses and not os.path.exists(ar):
            run(['ar', 'rcs', ar + '.tmp'] + objs)
            os.rename(ar + '.tmp', ar)
        for h in harnesses:
            dst = os.path.join(out, h)
            if not os.path.exists(dst):
                src = os.path.join(VERIF, 'harness', h + '.c')
                opt = []
                with open(src) as fh:
                    first = fh.readline()
                use = objs
                if 'flags:' in first:    # /* link: ... flags: ... */
                    opt = first.split('flags:')[1].split('*/')[0].split()
                    first = first.split('flags:')[0] + '*/'
                if 'link:' in first:     # /* link: none | all | a.o b.o ... */
                    names = first.split('link:')[1].split('*/')[0].split()
                    use = [] if names == ['none'] else [x for n in names for x in (objs if n == 'all' else [os.path.join(out, n)])]
                lf = link
                if not h.startswith('fuzz'):
                    lf = [f.replace(',fuzzer', '') for f in link]
                hj.append([cc] + BASE + lf + opt + INC + ['-I' + os.path.join(VERIF, 'harness'), src] + use + [ar] +
                          ['-o', dst + '.tmp'] + LIBS + ['-lz', '-rdynamic'])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, hj))
    return out


if __name__ == '__main__':
    for v in sys.argv[1:] or ['rel', 'asan', 'tsan']:
        print(build(v))
