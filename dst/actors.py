"""Several simulated processes, and threads in them, that share a directory.  Each stops before
every disk operation, network event and sleep (and, where it shares its process with others, at
every line of the package); one at a time goes on, as a recorded schedule says.  Processes are
killed at planned stops.  Each has a network and a clock of its own."""
import ctypes
import hashlib
import os
import pickle
import select
import signal
import struct
import threading
import time

from . import forkrun, interrupt, jplsim, sched

_clock = time.monotonic
TOOL = 4
MAX_STEPS = 30000


class Actor:
    def __init__(self, idx, spec):
        self.idx, self.spec = idx, spec
        self.host = spec.get('host', idx)
        self.stops = 0
        self.kind = None            # what it is about to do
        self.out = None             # how it ended
        self.marks = []
        self.pid = None


class _Threads:
    """Takes the place of the running simulation for the locks of dst.sched."""

    def __init__(self, lib):
        self.lib, self.members, self.progress = lib, {}, 0

    def task(self):
        return self.members.get(threading.get_ident())

    def wait_for(self, task, ready, timeout=-1):
        t0 = task.clock
        while not ready():
            task.clock += 1.
            if timeout is not None and 0 <= timeout < task.clock - t0:
                return False
            self.lib.dst_yield(ord('b'))
        return True


def _write(fd, data):
    mv = memoryview(data)
    while mv:
        mv = mv[os.write(fd, mv):]


def _body(lib, a, fn, fds, root, side, disk, alone):
    plan = a.spec.get('plan') or {}
    net = jplsim.Net(plan.get('net', {}), os.path.join(side, f'a{a.idx}'))
    net.server.serial = 997 * a.idx
    jplsim.NETS[threading.get_ident()] = net
    lib.dst_yield_fds(*fds)
    net.pause = lambda what: lib.dst_yield(ord('s' if what == 'sleep' else 'n'))
    lib.dst_yield(ord('S'))
    where = None
    try:
        die = interrupt.Die(plan['die'], plan.get('die_in')) if alone and plan.get('die') else None
        if die:
            with die:
                v = fn(lib)
            where = die.where
        else:
            v = fn(lib)
        out = ('ok', v)
    except jplsim.SimHang as e:
        out = ('hang', str(e))
    except interrupt.WorkerDied as e:
        out = ('interrupt', str(e))
    except KeyboardInterrupt:
        out = ('interrupt', 'network')
    except BaseException as e:      # noqa: BLE001
        import traceback
        tb = [f'{os.path.basename(f.filename)}:{f.lineno}' for f in traceback.extract_tb(e.__traceback__)][-3:]
        out = ('error', type(e).__name__, str(e)[:200].replace(root, '@'), tb)
    lib.dst_yield_fds(-1, -1)
    net.pause = None
    st = disk.state() if alone else {'wops': 0, 'rops': 0, 'fired': 0, 'log': []}
    data = pickle.dumps({'out': out, 'clock': net.clock, 'nreq': len(net.requests), 'fired': net.fired, 'where': where,
                         'disk': st, 'lines': die.k if alone and plan.get('die') else 0}, protocol=5)
    _write(fds[0], b'd' + struct.pack('<Q', len(data)) + data)


def _host(members, fns, fds, root, side):
    disk = jplsim.Disk()
    lib = disk.lib
    lib.dst_yield.argtypes = [ctypes.c_int]
    os.chdir(root)
    alone = len(members) == 1
    jplsim.install(jplsim.Net({}))
    disk.arm(root, (members[0].spec.get('plan') or {}).get('disk') if alone else None)
    if alone:
        _body(lib, members[0], fns[members[0].idx], fds[members[0].idx], root, side, disk, True)
        return
    sim = _Threads(lib)
    mon, ev = sched.MON, sched.E
    seen = {}

    def line(code, no):
        me = threading.get_ident()
        if me not in sim.members:
            return None
        k = seen[code, no] = seen.get((code, no), 0) + 1
        if k > 400:
            return mon.DISABLE
        lib.dst_yield(ord('l'))
        return None
    mon.use_tool_id(TOOL, 'dst-actors')
    mon.register_callback(TOOL, ev.LINE, line)
    for c in sched.CODES:
        mon.set_local_events(TOOL, c, ev.LINE)

    def body(a):
        me = threading.get_ident()

        def fn(_):
            sim.members[me] = jplsim.current()
            try:
                return fns[a.idx](lib)
            finally:
                sim.members.pop(me, None)
        _body(lib, a, fn, fds[a.idx], root, side, disk, False)
    ts = [threading.Thread(target=body, args=(a,), daemon=True) for a in members]
    sched.CURRENT = sim
    for t in ts:
        t.start()
    for t in ts:
        t.join()


def run(specs, fns, schedule, root, side, kills=(), quantum=5, on_write=None, on_mark=None, on_end=None, timeout=60.):
    """specs[i]: {'host': h, 'plan': {...}}; fns[i](lib) is what actor i does.
    schedule: [[actor, stops], ...]; after it they go on in turns of `quantum` stops.
    kills: [[actor, stop], ...]: its process is killed there.
    Calls on_write() after whatever may have changed a file, on_mark(actor) when an actor passes an 'R' stop."""
    actors = [Actor(i, s) for i, s in enumerate(specs)]
    hosts = {}
    for a in actors:
        hosts.setdefault(a.host, []).append(a)
        os.makedirs(os.path.join(side, f'a{a.idx}'), exist_ok=True)
    mine = []                                   # (read end, write end) of the coordinator
    ends = {}
    end = _clock() + timeout
    trace = hashlib.sha256()
    steps, switches, last, kinds = 0, 0, None, {}
    try:
        for h, ms in hosts.items():
            fds = {}
            for a in ms:
                r, w = os.pipe()
                r2, w2 = os.pipe()
                fds[a.idx] = (w, r2)
                ends[a.idx] = (r, w2)
                mine += [r, w2]
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    for fd in mine:
                        os.close(fd)
                    _host(ms, fns, fds, root, side)
                except BaseException:   # noqa: BLE001
                    import sys
                    import traceback
                    traceback.print_exc(file=sys.__stderr__)
                    code = 99
                finally:
                    os._exit(code)
            for a in ms:
                a.pid = pid
                os.close(fds[a.idx][0])
                os.close(fds[a.idx][1])

        def get(a, n):
            buf = b''
            while len(buf) < n:
                left = end - _clock()
                if left <= 0 or not select.select([ends[a.idx][0]], [], [], left)[0]:
                    raise forkrun.ChildTimeout(f'actor {a.idx} does not stop')
                c = os.read(ends[a.idx][0], min(1 << 20, n - len(buf)))
                if not c:
                    return None
                buf += c
            return buf

        def gone(a, how):
            """its process ended"""
            for b in hosts[a.host]:
                if b.out is None:
                    b.out, b.kind = (how,), None
            if on_write:
                on_write()

        def stop(a):
            k = get(a, 1)
            if k is None:
                os.waitpid(a.pid, 0)
                for b in hosts[a.host]:
                    b.pid = None
                gone(a, 'crash')
                return 'X'
            if k == b'd':
                a.res = pickle.loads(get(a, struct.unpack('<Q', get(a, 8))[0]))
                a.out, a.kind = a.res['out'], None
                return 'd'
            a.kind = k.decode()
            a.stops += 1
            return a.kind

        for a in actors:
            stop(a)
        todo = [list(x) for x in schedule]
        turn = 0
        killed = {}
        for i, n in kills:
            killed.setdefault(i, n)
        while True:
            live = [a for a in actors if a.out is None]
            if not live:
                break
            if steps > MAX_STEPS:
                for a in live:
                    a.out = ('hang', f'no end after {steps} steps')
                break
            if todo:
                i, left = todo.pop(0)
                a = actors[i % len(actors)]
                if a.out is not None:
                    continue
            else:
                a, left = live[turn % len(live)], quantum
                turn += 1
            if last is not None and last is not a:
                switches += 1
            last = a
            while left > 0 and a.out is None:
                left -= 1
                steps += 1
                if a.idx in killed and a.stops >= killed[a.idx]:
                    os.kill(a.pid, signal.SIGKILL)
                    os.waitpid(a.pid, 0)
                    for b in hosts[a.host]:
                        b.pid = None
                    gone(a, 'killed')
                    break
                before = a.kind
                if before == 'R' and on_mark:
                    a.marks.append(on_mark(a))
                try:
                    os.write(ends[a.idx][1], b'g')
                except BrokenPipeError:
                    pass
                k = stop(a)
                trace.update(f'{a.idx}{k}'.encode())
                kinds[k] = kinds.get(k, 0) + 1
                if before == 'w' and on_write:
                    on_write()
                if a.out is not None and on_end:
                    on_end(a)
                if k in 'sb':
                    break
        return {'actors': actors, 'steps': steps, 'switches': switches, 'trace': trace.hexdigest()[:16], 'kinds': kinds}
    finally:
        for pid in {a.pid for a in actors if a.pid}:
            if any(a.out is None or a.out[0] == 'hang' for a in actors if a.pid == pid):
                try:
                    os.kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            os.waitpid(pid, 0)
        for fd in mine:
            os.close(fd)
