"""Runs a C harness (see harness/h.h) and turns its lines into observations."""
import os
import shutil
import signal
import subprocess
import tempfile

from . import build as B
from . import server as S
from .check import Inconclusive, Violation


def environment(d, leaks=True, env=None):
    e = dict(os.environ)
    log = os.path.join(d, 'san')
    e['ASAN_OPTIONS'] = ('log_path=%s:detect_leaks=%d:handle_segv=2:handle_sigill=2:handle_sigfpe=2:handle_abort=1:allocator_may_return_null=1:'
                         'detect_stack_use_after_return=1:exitcode=77:malloc_context_size=20' % (log, 1 if leaks else 0))
    e['UBSAN_OPTIONS'] = 'log_path=%s:print_stacktrace=1:halt_on_error=1:exitcode=77' % log
    e['LSAN_OPTIONS'] = 'log_path=%s:exitcode=77' % log
    e['TSAN_OPTIONS'] = 'log_path=%s:halt_on_error=0:exitcode=0:second_deadlock_stack=1:history_size=4:suppressions=%s' % (log, S.SUPP_TSAN)
    e.update(env or {})
    return e


def run(ctx, variant, name, args=(), data=None, timeout=150, leaks=True, env=None, wrapper=(), key=None, keep=False, server=True):
    """Returns (stdout lines without the protocol, directory)"""
    d = tempfile.mkdtemp(prefix='wssh-')
    try:
        b = B.build(variant, (name,), server=server)
        try:
            p = subprocess.run(list(wrapper) + [os.path.join(b, name)] + [str(a) for a in args], input=data, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, cwd=d, env=environment(d, leaks, env), timeout=timeout)
        except subprocess.TimeoutExpired as e:
            v = Violation((key or name) + ':hang', 'harness %s %s did not end within %d s\n%s' % (name, args, timeout, (e.stdout or b'')[-500:]), hang=True)
            raise v
        text = ''
        for f in sorted(os.listdir(d)):
            if f.startswith('san.'):
                with open(os.path.join(d, f), errors='replace') as fh:
                    text += fh.read()
        out, end = [], False
        fails = []
        for l in p.stdout.decode('utf-8', 'replace').split('\n'):
            w = l.split(' ', 2)
            if w[0] == 'COUNT' and len(w) == 3:
                ctx.count(w[1], int(w[2]))
            elif w[0] == 'CASES' and len(w) == 3:
                ctx.case(n=int(w[1]))
                ctx.more_distinct(int(w[2]))
            elif w[0] == 'SAMPLE':
                ctx.case(n=0, sample=l[7:])
            elif w[0] == 'FAIL' and len(w) >= 2:
                fails.append((w[1], w[2] if len(w) > 2 else ''))
            elif l == 'END':
                end = True
            elif l:
                out.append(l)
        reps = S.parse_reports(text)
        desc = '%s %s (%s)' % (name, ' '.join(str(a) for a in args), variant)
        if reps:
            raise Violation(reps[0].signature, desc + '\n' + reps[0].text[:6000])
        if fails:
            raise Violation(fails[0][0], desc + ': ' + fails[0][1])
        if p.returncode < 0:
            raise Violation('%s:signal-%s' % (key or name, signal.Signals(-p.returncode).name), desc + '\n' + p.stderr.decode('utf-8', 'replace')[-2000:])
        if p.returncode != 0:
            raise Violation('%s:exit-%d' % (key or name, p.returncode), desc + '\n' + (p.stderr + p.stdout).decode('utf-8', 'replace')[-2000:])
        if not end:
            raise Inconclusive('%s ended early: %s' % (desc, out[-3:]))
        ctx.count('harness_runs')
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)
