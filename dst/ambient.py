"""Applies simulated machine conditions to the current (forked or fresh) process and runs
one scenario's operations there."""
import ctypes
import os
import random
import sys
import time


def shim():
    p = os.environ.get('DST_SHIM')
    if not p:
        raise RuntimeError('the clock shim is not loaded')
    lib = ctypes.CDLL(p)
    for n in ('dst_clock', 'dst_jump', 'dst_mono'):
        getattr(lib, n).argtypes = [ctypes.c_longlong] * (2 if n == 'dst_jump' else 3)
    lib.dst_clock.argtypes = [ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong]
    lib.dst_mono.argtypes = [ctypes.c_int, ctypes.c_longlong, ctypes.c_longlong]
    lib.dst_entropy.argtypes = [ctypes.c_int, ctypes.c_ulonglong]
    lib.dst_reads.restype = ctypes.c_longlong
    lib.dst_ent_reads.restype = ctypes.c_longlong
    return lib


def set_clock(lib, c):
    lib.dst_clock(1, c['base'], c.get('step', 1000))
    for at, by in c.get('jumps', ()):
        lib.dst_jump(at, by)


NEUTRAL = {'clock': {'base': 1717243200 * 10**9, 'step': 1000, 'jumps': []}, 'entropy': 0}


def clock_env(c):
    return ','.join([str(c['base']), str(c.get('step', 1000))] + [f'{a}:{b}' for a, b in c.get('jumps', ())])


def apply(node, where):
    """Everything of a node that can be set from within a running process."""
    import numpy as np
    for k, v in node.get('env', {}).items():
        if v is None:
            os.environ.pop(k, None)
        else:
            os.environ[k] = v
    cwd = node.get('cwd')
    if cwd:
        d = os.path.join(where, 'cwd')
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
        if cwd == 'gone':
            os.rmdir(d)
        elif cwd == 'decoys':
            for n in ('data', 'sunwhere.cfg', 'config.toml', '.sunwhere', 'pyproject.toml', '.env'):
                with open(n, 'w') as f:
                    f.write('algorithm = "iqbal"\n')
    if node.get('tz'):
        os.environ['TZ'] = node['tz']
        time.tzset()
    if node.get('locale'):
        import locale
        try:
            locale.setlocale(locale.LC_ALL, node['locale'])
        except locale.Error:
            pass
    if node.get('affinity'):
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, set(cpus[:node['affinity']]))
    if node.get('cpu_count'):
        os.cpu_count = lambda: node['cpu_count']
        import multiprocessing
        multiprocessing.cpu_count = os.cpu_count
    if node.get('seterr'):
        np.seterr(**node['seterr'])
    if node.get('pyseed') is not None:
        random.seed(node['pyseed'])
    if node.get('npseed') is not None:
        np.random.seed(node['npseed'])


def import_again():
    import importlib
    for m in [m for m in sys.modules if m == 'sunwhere' or m.startswith('sunwhere.')]:
        del sys.modules[m]
    importlib.import_module('sunwhere')
    importlib.import_module('sunwhere.utils.datetime')


def perform(sc, lib, node):
    """The scenario's calls and reads; returns canonical results and the number of clock readings."""
    from . import canon, specs
    import numexpr as ne
    if node.get('threads'):
        ne.set_num_threads(node['threads'])
    if lib is not None:
        set_clock(lib, node.get('clock', NEUTRAL['clock']))
        lib.dst_entropy(1, node.get('entropy', 0))
        if node.get('mono'):
            lib.dst_mono(1, node['mono'][0], node['mono'][1])
    raw = []
    slots = {}
    for op in sc['ops']:
        try:
            if op['op'] == 'call':
                slots[op['slot']] = v = specs.invoke(sc['specs'][op['spec']])
            elif op['slot'] in slots:
                v = specs.read(slots[op['slot']], op['acc'])
            else:
                v = 'no result'
        except Exception as e:      # noqa: BLE001
            v = e
        raw.append((op, v))
    reads = lib.dst_reads() if lib is not None else 0
    ent = lib.dst_ent_reads() if lib is not None else 0
    if lib is not None:
        lib.dst_clock(0, 0, 0)
        lib.dst_mono(0, 0, 0)
        lib.dst_entropy(0, 0)
    out = []
    from .callsim import snapshot
    for op, v in raw:
        if op['op'] == 'call' and hasattr(v, 'zenith'):
            out.append(snapshot(v))
        else:
            out.append(canon.canon(v))
    return {'out': out, 'reads': reads, 'entropy': ent}
