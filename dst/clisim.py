"""The command line in a simulated machine: its clock and zone, and a standard output that may be a
pipe without reader, a full disk, closed, or unable to show the text."""
import ctypes
import errno
import io
import os
import re
import subprocess
import sys
import time

from . import forkrun, jplsim

ROWS = ['Day of week', 'Date', 'Time', 'Latitude', 'Longitude', 'Declination', 'Sun-Earth distance', 'Zenith', 'Elevation',
        'Azimuth (0\u00b0 south)', 'Sunrise(UTC)', 'Sunset(UTC)', None, None, 'Equation of time']
VALUES = re.compile(r'(Zenith|Elevation|Azimuth|Declination|Sun-Earth distance|Sunrise\([^)]*\)|Sunset\([^)]*\)|Equation of time)'
                    r'[^\n]{0,60}?\d')


def parse_table(text):
    """{row: value} of a complete printed table, or None."""
    lines = text.split('\n')
    rows = {}
    inside = False
    for ln in lines:
        if ln.startswith('\u2554'):
            inside, rows = True, {}
        elif ln.startswith('\u255a'):
            return rows if inside else None
        elif inside and ln.startswith('\u2551'):
            c = [x.strip() for x in ln.strip('\u2551').split('\u2551')]
            if len(c) == 2 and c[0]:
                rows[c[0]] = c[1]
    return None


class Clock:
    def __init__(self):
        from . import ambient
        self.lib = ambient.shim()

    def set(self, c):
        from . import ambient
        ambient.set_clock(self.lib, c)

    def reads(self):
        return self.lib.dst_reads()

    def off(self):
        self.lib.dst_clock(0, 0, 0)


def reading(c, k):
    return c['base'] + k * c.get('step', 1000) + sum(by for at, by in c.get('jumps', ()) if k >= at)


def open_sink(sink, root):
    """Makes the planned standard output file descriptor 1 of this process. Returns something to keep open."""
    kind = sink['kind']
    lib = ctypes.CDLL(os.environ['DST_SHIM'])
    keep = None
    path = os.path.join(root, 'disk', 'stdout')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    sys.stdout.flush()
    os.close(1)
    if kind == 'file':
        d = jplsim.Disk()
        d.arm(os.path.dirname(path), sink.get('disk'))
        fd = None
        while fd is None:           # opening it is the shell's business
            try:
                fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            except OSError:
                pass
        keep = d
    elif kind == 'full':
        fd = os.open('/dev/full', os.O_WRONLY)
    elif kind == 'null':
        fd = os.open('/dev/null', os.O_WRONLY)
    elif kind == 'closed':
        fd = None
    elif kind == 'readonly':
        with open(path, 'w'):
            pass
        fd = os.open(path, os.O_RDONLY)
    elif kind in ('epipe', 'eagain'):
        r, w = os.pipe()
        if kind == 'epipe':
            os.close(r)
        else:
            os.set_blocking(w, False)
            try:
                while True:
                    os.write(w, b'x' * 4096)
            except BlockingIOError:
                pass
            try:
                while sink.get('room') is None:
                    os.write(w, b'x')
            except BlockingIOError:
                pass
            keep = r
        fd = w
    else:
        raise AssertionError(kind)
    if fd is not None and fd != 1:
        os.dup2(fd, 1)
        os.close(fd)
    if fd is not None:
        os.set_inheritable(1, True)
    if 'fsize' in sink:
        import resource
        resource.setrlimit(resource.RLIMIT_FSIZE, (sink['fsize'], resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
    return keep


def open_err(kind, root):
    sys.stderr.flush()
    if kind == 'closed':
        os.close(2)
        return
    fd = os.open('/dev/full', os.O_WRONLY) if kind == 'full' else \
        os.open(os.path.join(root, 'stderr'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC | os.O_APPEND, 0o600)
    os.dup2(fd, 2)
    if fd != 2:
        os.close(fd)


def start_streams(sink, err):
    """sys.stdout and sys.stderr as the interpreter would make them."""
    enc, errors = sink.get('encoding') or 'utf-8', sink.get('errors', 'strict')

    def stream(fd, enc, errors, buffered):
        try:
            os.fstat(fd)
        except OSError:
            return None
        raw = io.FileIO(fd, 'w', closefd=False)
        b = raw if not buffered else io.BufferedWriter(raw)
        return io.TextIOWrapper(b, encoding=enc, errors=errors, write_through=not buffered)
    sys.stdout = sys.__stdout__ = stream(1, enc, errors, not sink.get('unbuffered'))
    sys.stderr = sys.__stderr__ = stream(2, 'utf-8', 'backslashreplace', True)


def finish_streams():
    """What the interpreter does at the end: a standard output that cannot be flushed makes it exit with 120."""
    bad = False
    for s, counts in ((sys.stdout, True), (sys.stderr, False)):
        if s is None or getattr(s, 'closed', False):
            continue
        try:
            s.flush()
        except BaseException:       # noqa: BLE001
            bad = bad or counts
    return bad


def run_cli(args, root, node=None, sink=None, before=None, timeout=60.):
    """The command line with args in a forked child. before(): makes the process ready and returns a context manager or None."""
    node, sink = node or {}, sink or {'kind': 'file'}

    def child():
        if node.get('tz') is not None:
            os.environ['TZ'] = node['tz']
            time.tzset()
        for k, v in node.get('env', {}).items():
            os.environ[k] = v
        os.environ['COLUMNS'] = str(node.get('columns', 80))
        ctx = before() if before else None
        keep = open_sink(sink, root)
        open_err(node.get('err', 'ok'), root)
        start_streams(sink, None)
        sys.argv = ['sunwhere'] + list(args)
        code, how = 0, 'returned'
        clk = Clock() if node.get('clock') else None
        main = sys.modules.get('sunwhere._cli.main')
        if clk:
            clk.set(node['clock'])
        try:
            if main is None:
                import importlib
                main = importlib.import_module('sunwhere._cli.main')
            if ctx:
                with ctx:
                    main.app()
            else:
                main.app()
        except SystemExit as e:
            how = 'exit'
            code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            if e.code is not None and not isinstance(e.code, int) and sys.stderr is not None:
                sys.stderr.write(f'{e.code}\n')
        except BaseException as e:      # noqa: BLE001
            how, code = type(e).__name__, 130 if isinstance(e, KeyboardInterrupt) else 1
            try:
                sys.excepthook(*sys.exc_info())
            except BaseException:       # noqa: BLE001
                pass
        reads = 0
        if clk:
            reads = clk.reads()
            clk.off()
        if finish_streams():
            code = 120
        wops = fired = 0
        if isinstance(keep, jplsim.Disk):
            st = keep.state()
            fired = st['fired']
            keep.off()
        return {'code': code & 0xff, 'how': how, 'reads': reads, 'sink_fired': fired, 'ctx': getattr(ctx, 'report', lambda: None)()}
    rep = forkrun.run(child, timeout)
    rep['out'] = slurp(os.path.join(root, 'disk', 'stdout'))
    rep['err'] = slurp(os.path.join(root, 'stderr'))
    return rep


def slurp(p):
    try:
        with open(p, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        return b''


def run_real(args, root, node=None, sink=None, timeout=120.):
    """The same in a fresh interpreter, started the way the console script does."""
    node, sink = node or {}, sink or {'kind': 'file'}
    env = {k: v for k, v in os.environ.items() if k not in ('TZ',)}
    env.update(node.get('env', {}))
    env['COLUMNS'] = str(node.get('columns', 80))
    if node.get('tz') is not None:
        env['TZ'] = node['tz']
    if node.get('clock'):
        from . import ambient
        env['DST_CLOCK'] = ambient.clock_env(node['clock'])
    if node.get('locale'):
        env['LC_ALL'] = node['locale']
        env.pop('PYTHONIOENCODING', None)
    if sink.get('encoding'):
        env['PYTHONIOENCODING'] = sink['encoding'] + ':' + sink.get('errors', 'strict')
    else:
        env['PYTHONIOENCODING'] = 'utf-8'
    env['PYTHONPATH'] = os.environ.get('DST_REPO_SRC', '/repo/src')
    if sink.get('unbuffered'):
        env['PYTHONUNBUFFERED'] = '1'
    else:
        env.pop('PYTHONUNBUFFERED', None)

    def setup():
        open_sink(dict(sink, disk=None), root)
        open_err(node.get('err', 'ok'), root)
    p = subprocess.Popen([sys.executable, '-B', '-c', 'import sys; sys.argv[0] = "sunwhere"\n'
                          'from sunwhere._cli.main import app\nsys.exit(app())'] + list(args), env=env, preexec_fn=setup, cwd=root)
    code = p.wait(timeout)
    return {'code': code & 0xff, 'how': 'real', 'reads': 0, 'sink_fired': 0, 'ctx': None,
            'out': slurp(os.path.join(root, 'disk', 'stdout')), 'err': slurp(os.path.join(root, 'stderr'))}
