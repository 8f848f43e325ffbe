"""Sends signals to the threads of a process until that ends or stdin does.

storm.py PID SEED BURST PAUSE_US HOW

HOW is a list of: thread (SIGHUP and SIGPIPE to threads picked at random), same (many of
them to one thread), process (to the process), stop (SIGSTOP, a pause, SIGCONT), other
(signals that are ignored unless somebody asks for them). Prints how many of each were sent,
and to how many threads, at the end."""
import ctypes
import os
import random
import select
import signal
import sys
import time

SYS_tgkill = 234


def main():
    pid, seed, burst, pause = (int(x) for x in sys.argv[1:5])
    how = sys.argv[5].split(',')
    rng = random.Random(seed)
    libc = ctypes.CDLL(None, use_errno=True)
    fd = os.pidfd_open(pid)
    sent = dict.fromkeys(('thread', 'same', 'process', 'stop', 'other'), 0)
    seen = set()
    p = select.poll()
    p.register(fd, select.POLLIN)
    p.register(0, select.POLLIN | select.POLLHUP)
    print('ready', flush=True)
    while True:
        # (the number may belong to another process once this one has been waited for)
        if p.poll(0):
            break
        try:
            tids = [int(t) for t in os.listdir('/proc/%d/task' % pid)]
        except OSError:
            break
        if not tids:
            break
        h = rng.choice(how)
        try:
            if h == 'stop':
                signal.pidfd_send_signal(fd, signal.SIGSTOP)
                time.sleep(rng.choice([0, 0.0005, 0.003, 0.01]))
                signal.pidfd_send_signal(fd, signal.SIGCONT)
                sent['stop'] += 1
            elif h == 'process':
                for _ in range(rng.randrange(1, burst + 1)):
                    signal.pidfd_send_signal(fd, rng.choice([signal.SIGHUP, signal.SIGPIPE]))
                    sent['process'] += 1
            elif h == 'other':
                for _ in range(rng.randrange(1, burst + 1)):
                    signal.pidfd_send_signal(fd, rng.choice([signal.SIGCHLD, signal.SIGURG, signal.SIGWINCH]))
                    sent['other'] += 1
            else:
                t = rng.choice(tids)
                for _ in range(rng.randrange(1, burst + 1)):
                    if h == 'thread':
                        t = rng.choice(tids)
                    if libc.syscall(SYS_tgkill, pid, t, int(rng.choice([signal.SIGHUP, signal.SIGPIPE]))) == 0:
                        sent[h] += 1
                        seen.add(t)
        except OSError:
            break
        if pause:
            time.sleep(rng.random() * pause / 1e6)
    try:
        signal.pidfd_send_signal(fd, signal.SIGCONT)
    except OSError:
        pass
    print(' '.join('%s %d' % x for x in sent.items()), 'threads', len(seen), flush=True)


if __name__ == '__main__':
    main()
