"""Process-wide state a host program or another thread can observe, as a dict of comparable values."""
import atexit
import contextvars
import decimal
import gc
import locale
import logging
import os
import random
import _signal
import signal
import socket
import sys
import threading
import time
import warnings

import numexpr as ne
import numpy as np
import pandas as pd
import xarray as xr


_PD = []


def _pd_options():
    if not _PD:
        def walk(d):
            for k, v in d.items():
                if isinstance(v, dict):
                    walk(v)
                else:
                    _PD.append((d, k))
        walk(pd._config.config._global_config)
    return tuple([(k, d.get(k)) for d, k in _PD])


def _empty(fn):
    """fn() as another thread of the process would see it (new threads start in an empty context)."""
    return contextvars.Context().run(fn)


def _rng():
    s = np.random.get_state()
    return (s[1].tobytes(), s[0], s[2:])


SIGS = sorted(int(s) for s in signal.valid_signals())


def _loguru():
    from loguru import logger
    c = logger._core
    return (tuple(sorted(c.handlers)), tuple((n, v) for n, v in c.activation_list
                                             if not str(n).startswith('sunwhere')), c.min_level)


def _xr():
    return tuple(xr.core.options.OPTIONS.items())


def _logging():
    r = logging.getLogger()
    return (r.level, tuple(map(id, r.handlers)), tuple(map(id, r.filters)), r.disabled, logging.root.manager.disable,
            logging.raiseExceptions, id(logging.getLoggerClass()), logging.lastResort is None)


def fast():
    """Checked at every scheduling point."""
    return {
        'environment variables': tuple(os.environ._data.items()),
        'working directory': os.getcwd(),
        'time zone': (time.tzname, time.timezone, time.altzone, time.daylight),
        'locale': locale.setlocale(locale.LC_ALL),
        'numpy global random generator': _rng(),
        'python global random generator': hash(random.getstate()),
        'warning filters': (tuple(warnings.filters), warnings.defaultaction, id(warnings.showwarning),
                            id(warnings._showwarnmsg_impl)),
        'floating-point error handling of other threads': tuple(_empty(np.geterr).items()),
        'numpy print options of other threads': repr(_empty(np.get_printoptions)),
        'numexpr threads': (ne.nthreads, ne.get_num_threads() if hasattr(ne, 'get_num_threads') else None,
                            ne.utils.use_vml if hasattr(ne.utils, 'use_vml') else None),
        'pandas options': _pd_options(),
        'xarray options': _xr(),
        'signal handlers': tuple(h if type(h) is int else id(h) for h in map(_signal.getsignal, SIGS)),
        'interval timers': tuple(signal.getitimer(w)[1] for w in (0, 1, 2)) + (signal.getitimer(0)[0] > 0,),
        'blocked signals': tuple(sorted(signal.pthread_sigmask(signal.SIG_BLOCK, []))),
        'logging': _logging(),
        'loguru': _loguru(),
        'standard streams': (id(sys.stdin), id(sys.stdout), id(sys.stderr), id(sys.__stdout__)),
        'interpreter settings': (sys.getrecursionlimit(), sys.getswitchinterval(), gc.isenabled(), gc.get_threshold(),
                                 id(sys.excepthook), id(threading.excepthook), id(sys.unraisablehook),
                                 id(sys.displayhook), sys.dont_write_bytecode, sys.get_int_max_str_digits()),
        'import system': (tuple(sys.path), tuple(map(id, sys.meta_path)), tuple(map(id, sys.path_hooks))),
        'socket default timeout': socket.getdefaulttimeout(),
        'decimal context of other threads': str(_empty(decimal.getcontext)),
        'patched functions': tuple(map(id, (time.time, time.monotonic, os.urandom, random.random, open, print,
                                            __import__, np.sin, np.errstate, warnings.warn, pd.to_datetime,
                                            pd.Timestamp, ne.evaluate, xr.DataArray, np.array))),
    }


def walk(d):
    out = []
    for b, ds, fs in os.walk(d):
        for x in ds + fs:
            out.append(os.path.relpath(os.path.join(b, x), d))
    return tuple(sorted(out))


def umask():
    for ln in open('/proc/self/status'):
        if ln.startswith('Umask'):
            return ln.split()[1]


def slow(thread=True):
    """Checked between operations, on the thread that made the call."""
    sys.stdout.flush()
    out = {
        'floating-point error handling': tuple(np.geterr().items()),
        'floating-point error callback': (id(np.geterrcall()), np.getbufsize()),
        'numpy print options': repr(np.get_printoptions()),
        'decimal context': repr(decimal.getcontext()),
        'files written': walk(os.getcwd()),
        'standard output': os.fstat(1).st_size,
        'threads': tuple(sorted(t.name for t in threading.enumerate() if '(_body)' not in t.name)),
        'umask': umask(),
        'exit handlers': atexit._ncallbacks(),
        'open files': tuple(sorted((int(f), _link(f)) for f in os.listdir('/proc/self/fd') if _link(f))),
        'trace hooks': (sys.gettrace() is None, sys.getprofile() is None),
        'child processes': _children(),
    }
    return out


def _children():
    try:
        return open(f'/proc/self/task/{os.getpid()}/children').read()
    except OSError:
        return ''


def _link(f):
    try:
        p = os.readlink('/proc/self/fd/' + f)
    except OSError:
        return ''
    return '' if p.startswith(('/proc', 'pipe:')) else p


def diff(a, b):
    return [k for k in a if a[k] != b.get(k)]


# Settings of a host program that are not the defaults: putting a default "back" must show
HOST = {
    'numexpr-threads': [2, 3, 5],
    'fp-errors': ['ignore', 'warn', 'raise', 'log'],
    'print-options': [3, 11],
    'random': [1, 99],
    'warnings': ['error', 'always', 'ignore'],
    'pandas': ['display', 'compute'],
    'xarray': [True, 'default'],
    'recursion': [777, 2345],
    'gc': [(300, 7, 7), (5000, 20, 20)],
    'signals': ['own', 'ignored'],
    'logging': [10, 40],
    'zone': ['Asia/Kathmandu', 'America/Caracas'],
    'decimal': [7, 60],
    'timeout': [3.5],
    'umask': [0o27, 0o77],
    'environment': ['more', 'less'],
    'alarm': [3600],
}


def apply_host(h, d):
    """Process-wide settings; the ones of a thread are applied by apply_host_thread."""
    for k, v in h.items():
        if k == 'numexpr-threads':
            ne.set_num_threads(v)
        elif k == 'random':
            random.seed(v)
            np.random.seed(v)
        elif k == 'warnings':
            warnings.filterwarnings(v, message='a host filter', category=UserWarning)
        elif k == 'pandas':
            if v == 'display':
                pd.set_option('display.max_rows', 7, 'display.precision', 3)
            else:
                pd.set_option('compute.use_numexpr', False, 'compute.use_bottleneck', False)
        elif k == 'xarray':
            xr.set_options(keep_attrs=v, display_width=99)
        elif k == 'recursion':
            sys.setrecursionlimit(v)
        elif k == 'gc':
            gc.set_threshold(*v)
        elif k == 'signals':
            for s in (signal.SIGINT, signal.SIGTERM, signal.SIGUSR1):
                signal.signal(s, signal.SIG_IGN if v == 'ignored' else _host_handler)
        elif k == 'logging':
            logging.getLogger().setLevel(v)
            logging.getLogger().addHandler(logging.NullHandler())
            from loguru import logger
            logger.remove()
            logger.add(_host_sink, level=v)
        elif k == 'zone':
            os.environ['TZ'] = v
            time.tzset()
        elif k == 'timeout':
            socket.setdefaulttimeout(v)
        elif k == 'umask':
            os.umask(v)
        elif k == 'environment':
            if v == 'more':
                os.environ.update({'NUMEXPR_NUM_THREADS': '2', 'PYTHONWARNINGS': 'ignore', 'A_HOST_SETTING': 'x'})
            else:
                for e in ('NUMEXPR_NUM_THREADS', 'OMP_NUM_THREADS', 'LANG', 'NUMEXPR_MAX_THREADS'):
                    os.environ.pop(e, None)
        elif k == 'alarm':
            signal.setitimer(signal.ITIMER_REAL, v, 77)


def apply_host_thread(h):
    for k, v in h.items():
        if k == 'fp-errors':
            np.seterr(divide='ignore', over='raise', under=v, invalid='ignore' if v == 'warn' else 'warn')
            if v == 'log':
                np.seterrcall(_HOST_LOG)
        elif k == 'print-options':
            np.set_printoptions(precision=v, suppress=True)
        elif k == 'decimal':
            decimal.getcontext().prec = v


class _Log:
    def write(self, msg):
        pass


_HOST_LOG = _Log()


def _host_handler(signum, frame):
    pass


def _host_sink(msg):
    pass


def show(k, a, b):
    x, y = a[k], b[k]
    if isinstance(x, tuple) and isinstance(y, tuple):
        p = [i for i in x if i not in y][:3]
        q = [i for i in y if i not in x][:3]
        return f'{k}: {str(p)[:160]} became {str(q)[:160]}'
    return f'{k}: {str(x)[:120]} became {str(y)[:120]}'
