"""Worker processes of a simulated fleet: each serves one request at a time, in the order the coordinator decides."""
import copy
import functools
import os
import pickle
import select
import signal
import socket
import struct
import sys
import threading
import time

HANG_S = 4.0


# ---------------------------------------------------------------- framing

def put(fd, obj):
    data = pickle.dumps(obj, protocol=5)
    mv = memoryview(struct.pack('<Q', len(data)) + data)
    while mv:
        mv = mv[os.write(fd, mv):]


def take(fd, n):
    buf = bytearray()
    while len(buf) < n:
        c = os.read(fd, min(1 << 20, n - len(buf)))
        if not c:
            raise EOFError
        buf += c
    return bytes(buf)


def get(fd):
    return pickle.loads(take(fd, struct.unpack('<Q', take(fd, 8))[0]))


# ---------------------------------------------------------------- the worker

class NthLine:
    """Calls fn at the n-th line the package executes on this thread."""

    def __init__(self, n, fn):
        from . import sched
        self.prefix = sched.package_dir() + os.sep
        self.n, self.fn = n, fn

    def trace(self, frame, event, arg):
        if not frame.f_code.co_filename.startswith(self.prefix):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == 'line':
            self.n -= 1
            if self.n == 0:
                self.fn()
        return self.local

    def __enter__(self):
        sys.settrace(self.trace)

    def __exit__(self, *a):
        sys.settrace(None)


class Worker:
    def __init__(self, fd, boss):
        self.fd, self.boss = fd, boss
        self.slots = {}

    def serve(self):
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(240)
        while True:
            rd, _, _ = select.select([self.fd], [], [], 2.0)
            if not rd:
                try:
                    os.kill(self.boss, 0)
                except OSError:
                    os._exit(0)
                continue
            try:
                req = get(self.fd)
            except (EOFError, OSError):
                os._exit(0)
            if req['do'] == 'exit':
                os._exit(0)
            try:
                out = getattr(self, 'do_' + req['do'])(req)
            except BaseException as e:      # noqa: BLE001
                import traceback
                out = {'harness': f'{type(e).__name__}: {e}\n{traceback.format_exc()}'}
            put(self.fd, out)

    # every answer is canonical and was produced here
    def shown(self, v):
        from . import canon
        from .callsim import snapshot
        return snapshot(v) if hasattr(v, 'has_refraction') else canon.canon(v)

    def attempt(self, fn):
        """('ok', value) or ('exc', the error, after a trip through pickle)."""
        try:
            return 'ok', fn()
        except Exception as e:      # noqa: BLE001
            return 'exc', e

    def error(self, e):
        from . import canon
        out = {'exc': canon.canon(e)}
        try:
            out['travelled'] = canon.canon(pickle.loads(pickle.dumps(e)))
        except Exception as e2:     # noqa: BLE001
            out['stuck'] = f'{type(e).__name__} cannot be sent: {type(e2).__name__}: {e2}'[:300]
        return out

    def do_hello(self, req):
        return {'pid': os.getpid()}

    def do_pack(self, req):
        """A call, packed for another worker."""
        from . import specs
        try:
            return {'bytes': pickle.dumps(packed(req['spec']), protocol=req['proto'])}
        except Exception as e:      # noqa: BLE001
            return {'stuck': f'the entry point cannot be sent: {type(e).__name__}: {e}'[:300]}

    def do_call(self, req):
        from . import specs
        if 'bytes' in req:
            try:
                fn = pickle.loads(req['bytes'])
            except Exception as e:      # noqa: BLE001
                return {'stuck': f'the entry point cannot be received: {type(e).__name__}: {e}'[:300]}
        else:
            fn = functools.partial(specs.invoke, req['spec'])
        how, v = self.attempt(fn)
        if how == 'exc':
            return self.error(v)
        self.slots[req['slot']] = v
        return {'res': self.shown(v)}

    def do_read(self, req):
        from . import callsim, specs
        how, v = self.attempt(lambda: specs.read(self.slots[req['slot']], req['acc']))
        if how == 'exc':
            return self.error(v)
        out = {'res': self.shown(v)}
        if req.get('send'):
            try:
                out['bytes'] = pickle.dumps(v, protocol=req['send'])
            except Exception as e:      # noqa: BLE001
                out['stuck'] = f'{specs.acc_name(req["acc"])} cannot be sent: {type(e).__name__}: {e}'[:300]
        if req.get('scribble'):
            out['writes'] = callsim.scribble(v, req['scribble'], 60.)
        return out

    def do_look(self, req):
        """A value from elsewhere."""
        how, v = self.attempt(lambda: pickle.loads(req['bytes']))
        if how == 'exc':
            return {'stuck': f'a value cannot be received: {type(v).__name__}: {v}'[:300]}
        return {'res': self.shown(v)}

    def do_send(self, req):
        try:
            return {'bytes': pickle.dumps(self.slots[req['slot']], protocol=req['proto'])}
        except Exception as e:      # noqa: BLE001
            return {'stuck': f'the result cannot be sent: {type(e).__name__}: {e}'[:300]}

    def do_deliver(self, req):
        try:
            v = pickle.loads(req['bytes'])
        except Exception as e:      # noqa: BLE001
            return {'stuck': f'the result cannot be received: {type(e).__name__}: {e}'[:300]}
        self.slots[req['slot']] = v
        return {}

    def do_copy(self, req):
        try:
            v = {'copy': copy.copy, 'deepcopy': copy.deepcopy}[req['how']](self.slots[req['from']])
        except Exception as e:      # noqa: BLE001
            return {'stuck': f'{req["how"]} of the result failed: {type(e).__name__}: {e}'[:300]}
        self.slots[req['slot']] = v
        return {}

    def do_check(self, req):
        how, v = self.attempt(lambda: self.shown(self.slots[req['slot']]))
        if how == 'exc':
            return self.error(v)
        return {'res': v, 'reads': [self.do_read({'slot': req['slot'], 'acc': a}) for a in req.get('accs', ())]}

    def do_drop(self, req):
        self.slots.pop(req['slot'], None)
        return {}

    def do_die(self, req):
        """The machine loses power at the n-th line of a call."""
        from . import specs
        with NthLine(req['at'], lambda: os.kill(os.getpid(), signal.SIGKILL)):
            self.attempt(lambda: specs.invoke(req['spec']))
        os.kill(os.getpid(), signal.SIGKILL)

    def do_fork(self, req):
        from . import specs
        out = {}
        if 'during' in req:
            # another thread is in the middle of a call
            there, go, got = threading.Event(), threading.Event(), []

            def pause():
                there.set()
                go.wait(60)

            def body():
                with NthLine(req['at'], pause):
                    got.append(self.attempt(lambda: specs.invoke(req['during'])))
                there.set()
            t = threading.Thread(target=body)
            t.start()
            there.wait(60)
            out['paused'] = not got
        pid = os.fork()
        if pid == 0:
            self.fd = adopt(req['chan'], req['keep'])
            self.serve()
            os._exit(0)
        os.close(req['chan'])
        out['pid'] = pid
        if 'during' in req:
            go.set()
            t.join(60)
            how, v = got[0]
            out.update(self.error(v) if how == 'exc' else {'res': self.shown(v)})
        return out


def packed(spec):
    """An ordinary call of the public function, as a user would hand it to a pool."""
    import sunwhere
    from . import specs
    t, lat, lon = specs.make_args(spec)
    if spec.get('fn') == 'util':
        from sunwhere.utils import datetime as udt
        return functools.partial(getattr(udt, spec['name']), t, lon)
    kw = {a: spec[b] for a, b in (('algorithm', 'alg'), ('engine', 'eng'), ('refraction', 'refr')) if spec.get(b) is not None}
    return functools.partial(getattr(sunwhere, spec['uc']), t, lat, lon, **kw)


def adopt(fd, keep):
    """Close what belongs to the others; fds from 3 up except our own and those of workers not born yet."""
    for f in keep['close']:
        if f != fd:
            try:
                os.close(f)
            except OSError:
                pass
    return fd


# ---------------------------------------------------------------- the coordinator

class Hang(Exception):
    pass


class Dead(Exception):
    pass


class Fleet:
    MAX = 10

    def __init__(self):
        self.pairs = []
        for _ in range(self.MAX):
            a, b = socket.socketpair()
            self.pairs.append([a.detach(), b.detach()])
        self.pid = [None] * self.MAX
        self.alive = [False] * self.MAX

    def closing(self, i):
        """What a new worker i must close: the coordinator's ends and the ends of workers born before."""
        return [p[0] for p in self.pairs] + [p[1] for k, p in enumerate(self.pairs) if k != i and self.pid[k] is not None]

    def start(self, i):
        boss = os.getpid()
        pid = os.fork()
        if pid == 0:
            try:
                fd = adopt(self.pairs[i][1], {'close': self.closing(i)})
                Worker(fd, boss).serve()
            finally:
                os._exit(1)
        self.born(i, pid)

    def start_fresh(self, i, hashseed, opt):
        import subprocess
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        p = subprocess.Popen([sys.executable, '-B'] + ['-O'] * opt + [os.path.join(os.environ['DST_VERIF'], 'dst', 'fleetnode.py'),
                             str(self.pairs[i][1]), str(os.getpid())], env=env, pass_fds=[p[1] for k, p in enumerate(self.pairs) if k == i or self.pid[k] is None],
                             stdout=subprocess.DEVNULL)
        self.born(i, p.pid)

    def born(self, i, pid):
        os.close(self.pairs[i][1])
        self.pid[i] = pid
        self.alive[i] = True

    def cpu(self, i):
        """(what its threads are doing, the processor time they have used)"""
        doing, used = '', []
        for t in sorted(os.listdir(f'/proc/{self.pid[i]}/task')):
            try:
                s = open(f'/proc/{self.pid[i]}/task/{t}/stat').read().rsplit(')', 1)[1].split()
            except OSError:
                continue
            doing += s[0]
            used.append((t, s[11], s[12]))
        if not doing:
            raise OSError
        return doing, used

    def ask(self, i, req, limit=50.):
        put(self.pairs[i][0], req)
        t0 = time.monotonic()
        last, since = None, t0
        while True:
            rd, _, _ = select.select([self.pairs[i][0]], [], [], .25)
            if rd:
                try:
                    out = get(self.pairs[i][0])
                except (EOFError, OSError):
                    self.alive[i] = False
                    raise Dead
                if 'harness' in out:
                    raise RuntimeError('worker: ' + out['harness'])
                return out
            try:
                now = self.cpu(i)
            except (OSError, IndexError):
                self.alive[i] = False
                raise Dead from None
            if set(now[0]) <= {'Z', 'X'}:
                self.alive[i] = False
                raise Dead
            if set(now[0]) != {'S'} or now != last:
                last, since = now, time.monotonic()
            if time.monotonic() - since > HANG_S:
                raise Hang
            if time.monotonic() - t0 > limit:
                raise RuntimeError('worker too slow')

    def fork(self, a, c, req):
        out = self.ask(a, dict(req, do='fork', chan=self.pairs[c][1],
                               keep={'close': [self.pairs[k][1] for k in range(self.MAX) if k != c and self.pid[k] is not None]
                                     + [p[0] for p in self.pairs]}))
        self.born(c, out['pid'])
        return out

    def stop(self):
        for i, p in enumerate(self.pid):
            if p is not None:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
