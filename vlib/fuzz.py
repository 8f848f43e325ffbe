"""Runs a libFuzzer target for a fixed number of inputs, from seeds made here."""
import os
import re
import shutil
import subprocess
import tempfile

from . import build as B
from . import server as S
from .check import Inconclusive, Violation
from .harness import environment


def run(ctx, name, seeds, runs, max_len=4096, words=(), timeout=200, limit=None, leaks=True):
    b = B.build('fuzz', (name,))
    d = tempfile.mkdtemp(prefix='wssf-')
    try:
        corpus = os.path.join(d, 'corpus')
        os.mkdir(corpus)
        for i, s in enumerate(seeds):
            with open(os.path.join(corpus, 's%d' % i), 'wb') as f:
                f.write(s)
        cmd = [os.path.join(b, name), '-runs=%d' % runs, '-seed=%d' % (ctx.rng.randrange(1, 1 << 31)), '-max_len=%d' % max_len, '-timeout=20',
               '-rss_limit_mb=6000', '-malloc_limit_mb=3000', '-print_final_stats=1', '-artifact_prefix=%s/art-' % d, '-len_control=20',
               '-detect_leaks=%d' % (1 if leaks else 0)]
        if limit:
            cmd.append('-max_total_time=%d' % limit)
        if words:
            with open(os.path.join(d, 'dict'), 'w') as f:
                for w in words:
                    f.write('"%s"\n' % ''.join('\\x%02x' % c for c in w))
            cmd.append('-dict=%s/dict' % d)
        cmd.append(corpus)
        env = environment(d, leaks, {'FUZZ_DIR': b})
        # libFuzzer has to see the reports to keep the input
        env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('log_path=%s:' % os.path.join(d, 'san'), '').replace(':handle_abort=1', ':handle_abort=2').replace('exitcode=77', 'exitcode=77')
        env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
        env['LSAN_OPTIONS'] = ''
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=d, env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Inconclusive('%s: %d inputs took more than %d s' % (name, runs, timeout))
        out = p.stdout.decode('utf-8', 'replace')
        arts = sorted(f for f in os.listdir(d) if f.startswith('art-'))
        if p.returncode != 0:
            data = b''
            if arts:
                with open(os.path.join(d, arts[0]), 'rb') as f:
                    data = f.read()
            reps = S.parse_reports(out)
            key = reps[0].signature if reps else '%s:%s' % (name, (arts[0][4:].split('-')[0] if arts else 'exit-%d' % p.returncode))
            text = reps[0].text[:6000] if reps else out[-4000:]
            if not arts and not reps:
                raise Inconclusive('%s exit %d: %s' % (name, p.returncode, out[-1500:]))
            raise Violation(key, '%s, input (%s, hex): %s\n%s' % (name, arts, data[:3000].hex(), text))
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', out)
        n = int(m.group(1)) if m else 0
        cov = re.findall(r'cov: (\d+) ft: (\d+) corp: (\d+)', out)
        if not n or not cov:
            raise Inconclusive('%s: %s' % (name, out[-1500:]))
        ctx.count('fuzz_inputs', n)
        ctx.count('fuzz_edges_' + name[5:], int(cov[-1][0]))
        new = len(os.listdir(corpus))
        ctx.case(n=n)
        ctx.more_distinct(new)
        ctx.log('%s: %d inputs, %s edges, %s features, corpus %s' % ((name, n) + tuple(cov[-1])))
    finally:
        shutil.rmtree(d, ignore_errors=True)
