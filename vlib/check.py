"""Runs the scenarios of a property, gives the verdict and writes the evidence.

A check is a module checks/cXX.py with

    PROPERTY, LEVEL, RULE, ASSUMPTIONS
    def scenarios(tier, rng) -> [Scenario(name, fn, params...)]

Each scenario runs in a process of its own (several at a time). It reports what
it observed through its Ctx and raises Violation, or one of the errors of the
client library, when an observation contradicts the property."""
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import signal
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

from . import build as B
from . import server as S
from . import ws

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.json')
REPLAYS = os.path.join(VERIF, 'evidence', 'replays')


class Violation(Exception):
    """An observation that contradicts the property. key identifies what fails,
    independent of random values."""
    def __init__(self, key, message='', hang=False):
        self.key, self.message, self.hang = key, message, hang
        super().__init__('%s: %s' % (key, message))


class Inconclusive(Exception):
    pass


class Scenario:
    def __init__(self, name, fn, weight=1, timeout=240, confirm=False, **params):
        self.name, self.fn, self.weight, self.timeout, self.params = name, fn, weight, timeout, params
        # confirm: the verdict rests on wall-clock time, it is given only when a
        # second run under the same seed gives it as well
        self.confirm = confirm


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n - 20] + '...[%d]' % len(s)


class Ctx:
    def __init__(self, prop, tier, name, seed):
        self.prop, self.tier, self.name, self.seed = prop, tier, name, seed
        self.rng = random.Random(seed)
        self.counters = {}
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.servers = []
        self.trace = []
        self.storm = None

    def count(self, key, n=1):
        self.counters[key] = self.counters.get(key, 0) + n

    def case(self, key=None, nontrivial=True, sample=None, n=1):
        """One evaluation of the oracle; key tells distinct cases apart."""
        self.evaluations += n
        if key is not None and nontrivial:
            self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())
        if sample is not None and len(self.samples) < 3:
            self.samples.append(short(sample, 500))

    def more_distinct(self, n):
        """Distinct cases counted elsewhere, by a harness."""
        self.distinct = getattr(self, 'distinct', 0) + n

    def log(self, *a):
        """Remembered for the replay file."""
        self.trace.append(' '.join(short(x, 200) for x in a))
        if len(self.trace) > 400:
            del self.trace[:200]

    def check(self, ok, key, message=''):
        if not ok:
            raise Violation(key, message() if callable(message) else message)

    def server(self, *a, **kw):
        return Watched(self, *a, **kw)


def storm(ctx, s, how=None):
    """Signals that the server does not end on, sent to its threads from now on."""
    burst, pause, h = ctx.storm
    p = subprocess.Popen([sys.executable, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'storm.py'), str(s.pid), str(ctx.rng.randrange(1 << 32)),
                          str(burst), str(pause), how or h], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
    p.stdout.readline()
    return p


class Watched:
    """A server whose behaviour as a process is watched as well: sanitizer reports,
    early exit, exit status and time of a shutdown at the end."""
    def __init__(self, ctx, *a, stop=True, expect_exit=0, **kw):
        self.ctx, self.do_stop, self.expect = ctx, stop, expect_exit
        self.a, self.kw = a, kw
        chaos = kw.pop('chaos', None)
        if chaos:
            # (delays per 1000 calls, longest in microseconds, faults per 1000)
            if os.environ.get('WSS_SITES') and len(chaos) == 3:
                # for experiments: fewer places, longer delays
                chaos = (max(chaos[0], 200), min(chaos[1] * 5, 3000), chaos[2], int(os.environ['WSS_SITES']))
            env = dict(kw.get('env') or {})
            env['CHAOS'] = ','.join(str(x) for x in (ctx.rng.randrange(1 << 32),) + tuple(chaos))
            kw['env'] = env

    def __enter__(self):
        if self.kw.get('start') is False:
            self.s = S.Server(*self.a, **self.kw)
            self.ctx.servers.append(self.s)
            return self.s
        try:
            self.s = S.Server(*self.a, **self.kw)
        except S.StartError as e:
            raise Violation('server:start', str(e))
        self.ctx.servers.append(self.s)
        self.ctx.count('servers')
        if self.ctx.storm:
            self.storm = storm(self.ctx, self.s)
        return self.s

    def calm(self):
        """Ends the signals and counts what was sent."""
        p, self.storm = getattr(self, 'storm', None), None
        if p is None:
            return
        try:
            out = p.communicate(b'', 20)[0].split()
            for i in range(0, len(out) - 1, 2):
                self.ctx.count('signals_' + out[i].decode(), int(out[i + 1]))
        except (subprocess.SubprocessError, OSError, ValueError):
            p.kill()
            p.wait()

    def __exit__(self, et, e, tb):
        try:
            return self.leave(et, e, tb)
        finally:
            self.calm()

    def leave(self, et, e, tb):
        s, ctx = self.s, self.ctx
        if et is not None:
            self.calm()
        try:
            if et is None and self.do_stop and s.proc is not None:
                alive = s.alive()
                st = s.stop(40)
                self.judge(alive, st)
                ctx.count('clean_shutdowns')
            elif et is not None and s.proc is not None:
                self.describe(e)
        finally:
            if et is None:
                s.cleanup()
        return False

    def judge(self, alive, st):
        s = self.s
        try:
            with open(os.path.join(s.dir, 'chaos.stats')) as f:
                w = f.read().split()
                for i in range(2, len(w), 2):
                    self.ctx.count('injected_' + w[i], int(w[i + 1]))
        except OSError:
            pass
        reps = s.reports()
        if reps:
            raise Violation(reps[0].signature, reps[0].text[:6000])
        if not alive:
            raise Violation('server:exited:%s' % st, s.tail_log())
        if st is None:
            raise Violation('server:shutdown-stuck', s.stuck, hang=True)
        if st != self.expect:
            raise Violation('server:exit-status:%s' % st, s.tail_log())

    def describe(self, e):
        """The state of the server at the time of a failure."""
        s = self.s
        if s.proc.poll() is None:
            idle = s.idle()
            e.idle = idle
            e.stacks = s.stacks() if idle or isinstance(e, ws.Timeout) else ''
        else:
            e.idle = None
        e.exit = s.proc.poll()
        time.sleep(0.2)
        e.reports = s.reports()
        e.log = s.tail_log(3000)
        e.conf = json.dumps(s.conf)
        s.cleanup()


def verdict(e):
    """Turns what a scenario raised into (key, text, wants_confirmation) or None."""
    reps = getattr(e, 'reports', None)
    extra = ''
    for a in ('exit', 'idle', 'conf', 'log', 'stacks'):
        if getattr(e, a, None) not in (None, ''):
            extra += '\n%s: %s' % (a, getattr(e, a))
    if reps:
        return reps[0].signature, reps[0].text[:6000] + '\nduring: %r' % e + extra, False
    if isinstance(e, Violation):
        return e.key, e.message + extra, e.hang and not getattr(e, 'idle', False)
    ex = getattr(e, 'exit', None)
    if ex is not None and isinstance(e, (ws.ProtocolError, ws.Timeout, ws.Closed, OSError)):
        return 'server:died:%s' % ex, '%r%s' % (e, extra), False
    where = ''
    for f in traceback.extract_tb(e.__traceback__):
        if '/checks/' in f.filename:
            where = '%s' % f.name
    if isinstance(e, ws.Timeout):
        return 'hang:%s' % where, 'no progress: %s%s' % (e, extra), not getattr(e, 'idle', False)
    if isinstance(e, ws.ProtocolError):
        return 'protocol:%s' % where, '%s%s' % (e, extra), False
    if isinstance(e, ws.Closed):
        return 'closed:%s' % where, 'unexpected end of the connection: %r%s' % (e, extra), False
    if isinstance(e, (ConnectionError, BrokenPipeError)):
        return 'connection:%s' % where, '%r%s' % (e, extra), False
    return None


def child(fd, prop, tier, sc, seed):
    ctx = Ctx(prop, tier, sc.name, seed)
    out = {'name': sc.name, 'seed': seed}
    try:
        random.seed(seed)
        sc.fn(ctx, **sc.params)
        out['result'] = 'ok'
    except Inconclusive as e:
        out['result'] = 'inconclusive'
        out['text'] = str(e)
    except BaseException as e:
        v = None
        try:
            v = verdict(e)
        except BaseException:
            traceback.print_exc()
        if v is None:
            out['result'] = 'error'
            out['text'] = traceback.format_exc()
        else:
            out['result'] = 'violation'
            out['key'], out['text'], out['confirm'] = v
            out['confirm'] = out['confirm'] or sc.confirm
            out['trace'] = ctx.trace[-200:]
            out['where'] = traceback.format_exc()
    for s in ctx.servers:
        try:
            s.cleanup()
        except BaseException:
            pass
    out.update(counters=ctx.counters, evaluations=ctx.evaluations, keys=ctx.keys, samples=ctx.samples, distinct=getattr(ctx, 'distinct', 0))
    data = pickle.dumps(out)
    with os.fdopen(fd, 'wb') as f:
        f.write(data)
    os._exit(0)


STARTED = time.monotonic()


class Runner:
    def __init__(self, prop, tier, seed, slots=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.slots = slots or max(4, min(8, os.cpu_count() or 4))
        # a quick run gives its answer within 15 minutes whatever happens
        self.deadline = STARTED + (780 if tier == 'quick' else 10 ** 9)

    def start(self, sc, seed):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                os.setpgid(0, 0)
                child(w, self.prop, self.tier, sc, seed)
            finally:
                os._exit(3)
        os.close(w)
        return {'pid': pid, 'fd': r, 'sc': sc, 'seed': seed, 'data': b'', 'end': min(time.monotonic() + sc.timeout * (4 if self.tier == 'thorough' else 1), self.deadline)}

    def run(self, jobs, stop_early=True):
        """jobs: [(scenario, seed)]; yields results as they come."""
        jobs = list(jobs)
        running = []
        used = 0
        results = []
        stopped = False
        while jobs or running:
            if jobs and time.monotonic() > self.deadline:
                results += [{'name': sc.name, 'seed': seed, 'sc': sc, 'result': 'inconclusive', 'text': 'no time left'} for sc, seed in jobs]
                jobs = []
            while jobs and not stopped and (used + jobs[0][0].weight <= self.slots or not running):
                sc, seed = jobs.pop(0)
                running.append(self.start(sc, seed))
                used += sc.weight
            if stopped:
                jobs = []
                if not running:
                    break
            ready, _, _ = select.select([j['fd'] for j in running], [], [], 0.5)
            for j in list(running):
                done = False
                if j['fd'] in ready:
                    d = os.read(j['fd'], 1 << 20)
                    if d:
                        j['data'] += d
                    else:
                        done = True
                if not done and time.monotonic() > j['end']:
                    try:
                        os.killpg(j['pid'], signal.SIGKILL)
                    except OSError:
                        pass
                    done = True
                    j['timeout'] = True
                if done:
                    os.close(j['fd'])
                    os.waitpid(j['pid'], 0)
                    try:        # whatever the scenario left behind
                        os.killpg(j['pid'], signal.SIGKILL)
                    except OSError:
                        pass
                    running.remove(j)
                    used -= j['sc'].weight
                    if j.get('timeout'):
                        res = {'name': j['sc'].name, 'seed': j['seed'], 'result': 'inconclusive',
                               'text': 'watchdog after %d s' % j['sc'].timeout}
                    else:
                        try:
                            res = pickle.loads(j['data'])
                        except Exception as e:
                            res = {'name': j['sc'].name, 'seed': j['seed'], 'result': 'error', 'text': 'scenario process died: %r' % e}
                    res['sc'] = j['sc']
                    results.append(res)
                    if res['result'] == 'violation' and stop_early and not res.get('confirm') and not match_known(self.prop, res['key']):
                        stopped = True
        return results


def known():
    try:
        with open(KNOWN) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def match_known(prop, key):
    for k in known():
        if k.get('status') == 'open' and k.get('property') == prop and k.get('key') == key:
            return k
    return None


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1], int(argv[2]) if len(argv) > 2 else 5)
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    only = argv[2] if len(argv) > 2 else None
    t0 = time.monotonic()
    try:
        mod = importlib.import_module('checks.' + prop.lower())
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda v: B.build(v, getattr(mod, 'HARNESSES', {}).get(v, ())), mod.VARIANTS))
        scs = mod.scenarios(tier, random.Random('%s/%s' % (prop, seed)))
    except B.BuildError as e:
        print('ERROR property=%s build failed\n%s' % (prop, e))
        return 2
    if only:
        scs = [s for s in scs if only in s.name]
    runner = Runner(prop, tier, seed, getattr(mod, 'SLOTS', None))
    seeds = {}
    jobs = []
    for i, sc in enumerate(scs):
        jobs.append((sc, int.from_bytes(hashlib.blake2b(('%s/%d/%s/%d' % (prop, seed, sc.name, i)).encode(), digest_size=6).digest(), 'big')))
    # the heaviest first
    jobs.sort(key=lambda j: -j[0].weight)
    results = runner.run(jobs)
    # what rests on time is run again before it is believed
    again = [(r['sc'], r['seed']) for r in results if (r['result'] == 'violation' and r.get('confirm')) or r['result'] == 'inconclusive']
    unsure = []
    if again and not any(r['result'] == 'violation' and not r.get('confirm') for r in results):
        runner2 = Runner(prop, tier, seed, 1)
        more = runner2.run(again, stop_early=False)
        for r in more:
            r['first'] = False
        seconds = {(r['name'], r['seed']): r for r in more}
        out = []
        for r in results:
            s = seconds.get((r['name'], r['seed']))
            if s is None:
                out.append(r)
            elif s['result'] == 'violation' and r['result'] == 'violation':
                out.append(r)
            else:
                if s['result'] != 'violation':
                    unsure.append('%s: %s; second run: %s' % (r['name'], short(r.get('key') or r.get('text'), 200), s['result']))
                out.append(s)
        results = out
    rc = 0
    bad = [r for r in results if r['result'] == 'violation']
    errors = [r for r in results if r['result'] == 'error']
    inconclusive = [r for r in results if r['result'] == 'inconclusive']
    seen_keys = set()
    shown = set()
    nviol = 0
    for r in bad:
        k = match_known(prop, r['key'])
        if k:
            if k['id'] not in shown:
                shown.add(k['id'])
                print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
            continue
        nviol += 1
        if r['key'] in seen_keys:
            continue
        seen_keys.add(r['key'])
        path = save_replay(prop, tier, r)
        print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(path, VERIF)))
        print('  %s: %s' % (r['name'], short(r['key'], 200)))
        print('  ' + short(r['text'], 1200).replace('\n', '\n  '))
        rc = 1
    for f in known():
        if f.get('status') == 'open' and f.get('property') == prop and f['id'] not in shown:
            print('note: known finding %s was not observed in this run' % f['id'])
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': sum(r.get('evaluations', 0) for r in results),
            'distinct_nontrivial': len(set().union(*[r.get('keys', set()) for r in results]) if results else set()) +
            sum(r.get('distinct', 0) for r in results),
            'rule': mod.RULE,
            'samples': [{'scenario': r['name'], 'sample': x} for r in results for x in r.get('samples', [])][:20],
            'scenarios': len(results),
            'observed': {},
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': nviol,
    }
    obs = ev['coverage']['observed']
    for r in results:
        for k, v in r.get('counters', {}).items():
            obs[k] = max(obs.get(k, 0), v) if k.startswith('max_') else obs.get(k, 0) + v
    if unsure:
        ev['coverage']['not_confirmed'] = unsure
    if inconclusive:
        ev['coverage']['inconclusive'] = [r['name'] + ': ' + short(r.get('text', ''), 200) for r in inconclusive]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s seed=%d: %d scenarios, %d evaluations, %d distinct, %.1f s; %s' % (
        prop, tier, seed, len(results), ev['coverage']['evaluations'], ev['coverage']['distinct_nontrivial'],
        ev['wall_s'], ' '.join('%s=%s' % kv for kv in sorted(obs.items()))))
    if rc == 0 and errors:
        for r in errors[:3]:
            print('ERROR %s\n%s' % (r['name'], r.get('text', '')[-3000:]))
        return 2
    if rc == 0 and len(inconclusive) > len(results) // 2:
        print('ERROR inconclusive: %s' % [r['name'] for r in inconclusive])
        return 2
    if rc == 0 and (ev['coverage']['evaluations'] == 0):
        print('ERROR nothing was observed')
        return 2
    for u in unsure:
        print('note: not confirmed by a second run: %s' % u)
    return rc


def save_replay(prop, tier, r):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s.json' % (prop, hashlib.sha1(('%s%s%s' % (r['name'], r['seed'], r['key'])).encode()).hexdigest()[:10]))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'tier': tier, 'scenario': r['name'], 'seed': r['seed'], 'run_seed': int(os.environ.get('VERIF_SEED') or 1),
                   'key': r['key'], 'text': r['text'], 'trace': r.get('trace'), 'where': r.get('where')}, f, indent=1)
    return path


def replay(path, n):
    """Runs the scenario of a replay file again with the same seed, n times."""
    with open(path) as f:
        d = json.load(f)
    prop = d['property']
    mod = importlib.import_module('checks.' + prop.lower())
    scs = [s for s in mod.scenarios(d['tier'], random.Random('%s/%s' % (prop, d['run_seed']))) if s.name == d['scenario']]
    rc = 0
    for i in range(n):
        for r in Runner(prop, d['tier'], d['run_seed'], 1).run([(scs[0], d['seed'])]):
            print(i, r['result'], r.get('key', ''), short(r.get('text', ''), 1500))
            rc |= r['result'] == 'violation'
    return int(rc)
