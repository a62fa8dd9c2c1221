"""What this process holds, in numbers that stay put when nothing is kept."""
import ctypes
import gc
import os
import sys
import threading


class _Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks',
                                               'uordblks', 'fordblks', 'keepcost')]


_libc = ctypes.CDLL(None)
_libc.mallinfo2.restype = _Mallinfo2

KINDS = ['blocks', 'bytes', 'descriptors', 'threads', 'processes', 'files']
# growth per round that counts as growth
STEP = {'blocks': .5, 'bytes': 32., 'descriptors': .02, 'threads': .02, 'processes': .02, 'files': .02}


def measure(roots=()):
    for _ in range(3):
        gc.collect()
    m = _libc.mallinfo2()
    kids = 0
    for t in os.listdir('/proc/self/task'):
        try:
            kids += len(open(f'/proc/self/task/{t}/children').read().split())
        except OSError:
            pass
    return {'files': sum(len(f) for r in roots for _, _, f in os.walk(r)), 'processes': kids,
            'descriptors': len(os.listdir('/proc/self/fd')), 'threads': len(os.listdir('/proc/self/task')) + len(threading.enumerate()),
            'bytes': m.uordblks + m.hblkhd, 'blocks': sys.getallocatedblocks()}


def watch(turn, warm, window, limit, roots=()):
    """Calls turn(0), turn(1), ... and tells what keeps growing: {kind: growth per round}.

    Caches that fill up are not growth: what still grows is given up to `limit` rounds to come to rest."""
    n = 0

    def go(k):
        nonlocal n
        for _ in range(k):
            turn(n)
            n += 1
        return measure(roots)

    def rates(a, b, k):
        return {x: (b[x] - a[x]) / k for x in KINDS}
    go(warm)
    a = go(warm)
    history = []
    while True:
        b = go(window)
        c = go(window)
        r1, r2 = rates(a, b, window), rates(b, c, window)
        grows = {x: min(r1[x], r2[x]) for x in KINDS if min(r1[x], r2[x]) >= STEP[x]}
        history.append((n, r1, r2))
        if not grows or n >= limit:
            return grows, n, history
        window = min(window * 2, limit // 4)
        a = c
