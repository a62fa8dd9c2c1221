"""Run a function in a forked child and get its (pickled) result back."""
import os
import pickle
import select
import signal
import struct
import sys
import time
import traceback


class ChildTimeout(Exception):
    pass


class ChildDied(Exception):
    pass


def _write_all(fd, data):
    mv = memoryview(data)
    while mv:
        n = os.write(fd, mv)
        mv = mv[n:]


def run(fn, timeout=60.0, quiet=True):
    """Returns fn() as computed in a forked child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = (True, fn())
            except BaseException as e:      # noqa: BLE001
                out = (False, f'{type(e).__name__}: {e}\n{traceback.format_exc()}')
            data = pickle.dumps(out, protocol=5)
            _write_all(w, struct.pack('<Q', len(data)) + data)
        except BaseException:               # noqa: BLE001
            traceback.print_exc(file=sys.__stderr__)
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    t0 = time.monotonic()
    buf = bytearray()
    need = None
    status = None
    try:
        while True:
            left = timeout - (time.monotonic() - t0)
            if left <= 0:
                raise ChildTimeout(f'child exceeded {timeout}s')
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                continue
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
            if need is None and len(buf) >= 8:
                need = struct.unpack('<Q', buf[:8])[0]
            if need is not None and len(buf) >= 8 + need:
                break
    finally:
        os.close(r)
        if need is None or len(buf) < 8 + need:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        _, status = os.waitpid(pid, 0)
    if need is None or len(buf) < 8 + need:
        raise ChildDied(f'child ended with status {status}')
    ok, val = pickle.loads(bytes(buf[8:8 + need]))
    if not ok:
        raise RuntimeError('child failed: ' + val)
    return val
