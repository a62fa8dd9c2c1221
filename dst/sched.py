"""Deterministic scheduler for real threads.

Every thread of a simulated run is parked on its own lock; exactly one holds
the baton.  The interpreter's monitoring events (sys.monitoring) for the code
objects of the package under test are the scheduling points: at each of them
the explicit schedule of the scenario decides who runs next, which fault is
raised there, and which nested call starts there.  Nothing in the package is
changed: the seam is the interpreter."""
import ast
import gc
import hashlib
import os
import sys
import threading
import time
import types
from _thread import allocate_lock, get_ident

MON = sys.monitoring
TOOL = 4
E = MON.events

_real_lock = threading.Lock
_real_rlock = threading.RLock

CURRENT = None            # the running Sim, if any


class Deadlock(BaseException):
    """Raised in every blocked task when no task can make progress."""


class SimLock:
    """threading.Lock/RLock replacement: a real lock outside a simulation; inside,
    blocking hands the baton on instead of blocking the process."""

    def __init__(self, real, reentrant=False):
        self._l = real
        self._re = reentrant

    def acquire(self, blocking=True, timeout=-1):
        sim = CURRENT
        task = sim.task() if sim is not None else None
        if task is None:
            return self._l.acquire(blocking, timeout)
        if self._l.acquire(False):
            return True
        if not blocking:
            return False
        return sim.wait_for(task, lambda: self._l.acquire(False), timeout)

    def release(self):
        self._l.release()
        if CURRENT is not None:
            CURRENT.progress += 1

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._l.locked()

    def __getattr__(self, k):            # _is_owned, _release_save, ... used by Condition
        return getattr(self._l, k)

    def __repr__(self):
        return f'<SimLock {self._l!r}>'


def SimLockFactory():
    return SimLock(_real_lock())


def SimRLockFactory(*a, **k):
    return SimLock(_real_rlock(*a, **k), True)


def patch_locks():
    """Locks created from now on (by code that looks them up in threading) are SimLocks."""
    threading.Lock = SimLockFactory
    threading.RLock = SimRLockFactory
    threading._allocate_lock = SimLockFactory


def unpatch_locks():
    threading.Lock = _real_lock
    threading.RLock = _real_rlock
    threading._allocate_lock = _real_lock


_real_sleep = time.sleep


def sim_sleep(secs):
    """time.sleep for code running inside a simulation: a scheduling point, no real time."""
    sim = CURRENT
    task = sim.task() if sim is not None else None
    if task is None:
        return _real_sleep(secs)
    sim.now += max(0., float(secs))
    sim.switch_away(task)
    return None


# ------------------------------------------------------------ code discovery

def package_dir():
    import sunwhere
    return os.path.dirname(os.path.abspath(sunwhere.__file__))


def code_objects(pkgdir):
    seen = {}
    prefix = pkgdir + os.sep

    def add(code):
        if id(code) in seen or not code.co_filename.startswith(prefix):
            return
        seen[id(code)] = code
        for c in code.co_consts:
            if isinstance(c, types.CodeType):
                add(c)
    frozen = gc.get_freeze_count()
    gc.unfreeze()                   # frozen objects are not listed
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            add(o.__code__)
    if frozen:
        gc.freeze()
    return [c for c in seen.values()]


_EXCL = {}


def excluded_lines(filename):
    """Lines where raising would be unrealistic: bodies of finally/except blocks and the
    headers of try/with statements (a fault between acquiring and guarding a resource)."""
    if filename in _EXCL:
        return _EXCL[filename]
    out = set()
    try:
        tree = ast.parse(open(filename, encoding='utf-8').read())
    except (OSError, SyntaxError):
        tree = ast.parse('')

    def span(stmts):
        for s in stmts:
            out.update(range(s.lineno, (s.end_lineno or s.lineno) + 1))
    for node in ast.walk(tree):
        if isinstance(node, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            out.add(node.lineno)
            span(node.finalbody)
            for h in node.handlers:
                out.add(h.lineno)
                span(h.body)
            # the statement just before a try is usually the acquisition it guards
        elif isinstance(node, (ast.With, ast.AsyncWith)):
            out.update(range(node.lineno, node.body[0].lineno))
        if hasattr(node, 'body') and isinstance(node.body, list):
            for a, b in zip(node.body, node.body[1:]):
                if isinstance(b, ast.Try) and b.finalbody and hasattr(a, 'lineno'):
                    out.update(range(a.lineno, (a.end_lineno or a.lineno) + 1))
    _EXCL[filename] = out
    return out


CODES = None
PKG = None


def discover():
    global CODES, PKG
    PKG = package_dir()
    CODES = code_objects(PKG)
    if len(CODES) < 20:
        raise RuntimeError(f'only {len(CODES)} functions of the package were found')
    for c in CODES:
        excluded_lines(c.co_filename)
    return CODES


# ------------------------------------------------------------------ the sim

class Task:
    def __init__(self, idx, fn):
        self.idx = idx
        self.fn = fn
        self.sem = allocate_lock()
        self.sem.acquire()
        self.done = False
        self.ident = None
        self.busy = False
        self.points = 0        # scheduling points in the current op
        self.calls = 0
        self.op = -1
        self.exc = None
        self.waiting = None


class Sim:
    def __init__(self, fns, schedule, gran='line', faults=(), nests=(), observer=None, lockstep=None):
        self.tasks = [Task(i, f) for i, f in enumerate(fns)]
        self.byident = {}
        self.schedule = list(schedule)
        self.seg = -1
        self.left = 0
        self.gran = gran
        self.faults = {}
        for f in faults:
            self.faults.setdefault((f['task'], f['op'], f.get('site', 'line')), []).append(f)
        self.nests = {}
        for n in nests:
            self.nests.setdefault((n['task'], n['op']), []).append(n)
        self.nest_fn = None
        self.fault_fn = None
        self.observer = observer
        self.switches = 0
        self.total_points = 0
        self.trace = hashlib.sha256()
        self.fired = []
        self.sites = set()
        self.progress = 0
        self.now = 0.0
        self.deadlock = False
        self.dead_info = None
        self.main = allocate_lock()
        self.main.acquire()
        self.capture = None

    def task(self):
        return self.byident.get(get_ident())

    # -- who runs next
    def runnable(self, me=None):
        return [t for t in self.tasks if not t.done]

    def _next_segment(self):
        while True:
            self.seg += 1
            if self.seg >= len(self.schedule):
                self.left = 1 << 60
                for t in self.tasks:
                    if not t.done:
                        return t
                return None
            ti, n = self.schedule[self.seg]
            t = self.tasks[ti % len(self.tasks)]
            if not t.done:
                self.left = max(1, n)
                return t

    def _handoff(self, me, nxt, label):
        self.switches += 1
        self.trace.update(f'{me.idx}>{nxt.idx}@{label};'.encode())
        if self.capture is not None:
            self.capture.append([me.idx, nxt.idx, label])
        nxt.sem.release()
        me.sem.acquire()
        if self.deadlock:
            raise Deadlock()

    def point(self, task, label):
        task.points += 1
        self.total_points += 1
        if self.observer is not None:
            self.observer(self, task, label)
        self.left -= 1
        if self.left > 0:
            return
        nxt = self._next_segment()
        if nxt is None or nxt is task:
            return
        self._handoff(task, nxt, label)

    def switch_away(self, task):
        """Voluntary yield (sleep, lock wait): some other live task gets the baton."""
        others = [t for t in self.tasks if not t.done and t is not task]
        if not others:
            return False
        nxt = others[(task.idx) % len(others)] if len(others) > 1 else others[0]
        # round-robin over the others, in index order after this task
        later = [t for t in others if t.idx > task.idx]
        nxt = (later or others)[0]
        self._handoff(task, nxt, 'yield')
        return True

    def wait_for(self, task, ready, timeout=-1):
        """Block the task until ready(); others run meanwhile."""
        spins = 0
        while True:
            if ready():
                task.waiting = None
                return True
            task.waiting = ready
            live = [t for t in self.tasks if not t.done]
            if all(t.waiting is not None for t in live):
                # everyone is blocked: each gets a chance to retry; free-running threads may help
                spins += 1
                if timeout is not None and timeout >= 0:
                    self.now += timeout
                    task.waiting = None
                    return False
                if spins > 3 * len(live) + 3:
                    if threading.active_count() > len(self.tasks) + 1 and spins < 200:
                        _real_sleep(0.01)
                    else:
                        self.deadlock = True
                        self.dead_info = [t.idx for t in live]
                        for t in live:
                            if t is not task:
                                t.sem.release()
                        raise Deadlock()
            if len(live) > 1:
                self.switch_away(task)

    # -- monitoring callbacks
    def cb_line(self, code, line):
        t = self.byident.get(get_ident())
        if t is None or t.busy or t.op < 0:
            return
        t.busy = True
        try:
            self.sites.add((code.co_name, line))
            label = f'{code.co_name}:{line}'
            if self.gran == 'line':
                self.point(t, label)
            else:
                t.lines = getattr(t, 'lines', 0) + 1
            self._nest(t, label)
            self._fault(t, 'line', t.points if self.gran == 'line' else t.lines, code, line)
        finally:
            t.busy = False

    def cb_instr(self, code, off):
        t = self.byident.get(get_ident())
        if t is None or t.busy or t.op < 0:
            return
        t.busy = True
        try:
            self.point(t, f'{code.co_name}+{off}')
        finally:
            t.busy = False

    def cb_call(self, code, off, callee, arg0):
        t = self.byident.get(get_ident())
        if t is None or t.busy or t.op < 0:
            return
        t.calls += 1
        if (t.idx, t.op, 'call') in self.faults:
            t.busy = True
            try:
                self._fault(t, 'call', t.calls, code, self._line_of(code, off))
            finally:
                t.busy = False

    @staticmethod
    def _line_of(code, off):
        for s, e, ln in code.co_lines():
            if s <= off < e:
                return ln
        return None

    def _nest(self, t, label):
        ns = self.nests.get((t.idx, t.op))
        if not ns:
            return
        cnt = t.points
        for n in list(ns):
            if cnt >= n['n']:
                ns.remove(n)
                self.fired.append(['nested-call', label])
                op = t.op
                self.nest_fn(t, n)
                t.op = op

    def _fault(self, t, site, cnt, code, line):
        fs = self.faults.get((t.idx, t.op, site))
        if not fs:
            return
        for f in list(fs):
            if cnt >= f['n']:
                if line in excluded_lines(code.co_filename):
                    continue            # fires at the next eligible point
                fs.remove(f)
                self.fired.append([f['kind'], f'{site}:{code.co_name}:{line}'])
                exc = self.fault_fn(f)
                f['_exc'] = exc
                if exc is not None:
                    raise exc

    # -- op bookkeeping, called by task bodies
    def begin_op(self, task, j):
        task.points = 0
        task.calls = 0
        task.lines = 0
        task.op = j
        if self.gran != 'op':
            return

    def op_boundary(self, task):
        """A scheduling point between operations."""
        task.op = -1
        self.left -= 1
        if self.left > 0:
            return
        nxt = self._next_segment()
        if nxt is not None and nxt is not task:
            self._handoff(task, nxt, 'op')

    def _body(self, task):
        task.sem.acquire()
        self.byident[get_ident()] = task
        try:
            if not self.deadlock:
                task.fn(self, task)
        except Deadlock:
            pass
        except BaseException as e:      # noqa: BLE001
            task.exc = e
        task.op = -1
        task.done = True
        self.byident.pop(get_ident(), None)
        if self.deadlock:
            if all(t.done for t in self.tasks):
                self.main.release()
            return
        self.left = 0
        nxt = self._next_segment()
        if nxt is None:
            self.main.release()
        else:
            self.trace.update(f'{task.idx}|{nxt.idx};'.encode())
            nxt.sem.release()

    def run(self):
        global CURRENT
        MON.use_tool_id(TOOL, 'dst')
        need_call = any(k[2] == 'call' for k in self.faults)
        ev = E.LINE | (E.INSTRUCTION if self.gran == 'instr' else 0) | (E.CALL if need_call else 0)
        try:
            MON.register_callback(TOOL, E.LINE, self.cb_line)
            if self.gran == 'instr':
                MON.register_callback(TOOL, E.INSTRUCTION, self.cb_instr)
            if need_call:
                MON.register_callback(TOOL, E.CALL, self.cb_call)
            for c in CODES:
                MON.set_local_events(TOOL, c, ev)
            CURRENT = self
            ths = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
            for th in ths:
                th.start()
            first = self._next_segment()
            first.sem.release()
            self.main.acquire()
            for th in ths:
                if not self.deadlock:
                    th.join()
        finally:
            CURRENT = None
            for c in CODES:
                MON.set_local_events(TOOL, c, 0)
            for e in (E.LINE, E.INSTRUCTION, E.CALL):
                MON.register_callback(TOOL, e, None)
            MON.free_tool_id(TOOL)


class Counter:
    """Counts LINE and CALL events of the package while a block runs on this thread."""

    def __enter__(self):
        self.lines = self.calls = 0
        MON.use_tool_id(TOOL, 'dst-count')
        MON.register_callback(TOOL, E.LINE, self._l)
        MON.register_callback(TOOL, E.CALL, self._c)
        for c in CODES:
            MON.set_local_events(TOOL, c, E.LINE | E.CALL)
        return self

    def _l(self, *a):
        self.lines += 1

    def _c(self, *a):
        self.calls += 1

    def __exit__(self, *a):
        for c in CODES:
            MON.set_local_events(TOOL, c, 0)
        for e in (E.LINE, E.CALL):
            MON.register_callback(TOOL, e, None)
        MON.free_tool_id(TOOL)
