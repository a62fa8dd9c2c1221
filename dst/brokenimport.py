"""Imports that fail: a finder in front of sys.meta_path that makes modules missing,
unreadable, broken from their n-th statement on, or unavailable for the first k attempts."""
import ast
import importlib
import importlib.abc
import importlib.machinery
import sys


class Odd(Exception):
    pass


EXC = {
    'ImportError': lambda: ImportError('DLL load failed'),
    'ModuleNotFoundError': lambda: ModuleNotFoundError("No module named 'x'", name='x'),
    'OSError': lambda: OSError(5, 'Input/output error'),
    'PermissionError': lambda: PermissionError(13, 'Permission denied'),
    'MemoryError': lambda: MemoryError(),
    'RuntimeError': lambda: RuntimeError('compiled against another ABI version'),
    'AttributeError': lambda: AttributeError("module 'numpy' has no attribute 'float'"),
    'TypeError': lambda: TypeError('unsupported'),
    'ValueError': lambda: ValueError('numpy.dtype size changed'),
    'SyntaxError': lambda: SyntaxError('invalid syntax'),
    'SystemError': lambda: SystemError('initialization failed'),
    'RecursionError': lambda: RecursionError('maximum recursion depth exceeded'),
    'AssertionError': lambda: AssertionError(),
    'KeyError': lambda: KeyError('HOME'),
    'UnicodeDecodeError': lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte'),
    'DeprecationWarning': lambda: DeprecationWarning('gone'),
    'Odd': lambda: Odd('odd'),
    'StopIteration': lambda: StopIteration(),
}


def statements(filename):
    return len(ast.parse(open(filename, encoding='utf-8').read()).body)


class Loader(importlib.machinery.SourceFileLoader):
    def __init__(self, name, path, fault, fired):
        super().__init__(name, path)
        self.fault, self.fired = fault, fired

    def get_code(self, fullname):            # never from a cached .pyc
        return self.source_to_code(self.get_data(self.path), self.path)

    def source_to_code(self, data, path, **kw):
        tree = ast.parse(data)
        n = self.fault['at'] % (len(tree.body) + 1)
        line = tree.body[n].lineno if n < len(tree.body) else tree.body[-1].end_lineno
        stop = ast.parse('__import__("dst.brokenimport").brokenimport.fail(%r)' % self.fault['id']).body[0]
        for x in ast.walk(stop):
            if hasattr(x, 'lineno'):
                x.lineno = x.end_lineno = line
        tree.body.insert(n, stop)
        return compile(tree, path, 'exec')


ACTIVE = {}


def fail(i):
    f, fired = ACTIVE[i]
    fired.append([f['exc'], f'{f["name"]}@{f.get("at", "import")}'])
    raise EXC[f['exc']]()


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, faults):
        self.faults = {}
        self.fired = []
        for i, f in enumerate(faults):
            f = dict(f, id=i)
            ACTIVE[i] = (f, self.fired)
            self.faults[f['name']] = f
        self.tries = {}

    def find_spec(self, name, path=None, target=None):
        f = self.faults.get(name)
        if f is None:
            return None
        k = self.tries[name] = self.tries.get(name, 0) + 1
        if f.get('times') and k > f['times']:
            return None                       # the trouble is over
        if f.get('at') is None:
            fail(f['id'])
        for p in path or sys.path:
            spec = importlib.machinery.PathFinder.find_spec(name, [p])
            if spec and spec.origin:
                spec.loader = Loader(name, spec.origin, f, self.fired)
                return spec
        return None


def install(faults):
    """Forget the package and the blocked dependencies, and break their next import."""
    names = {f['name'] for f in faults}
    for m in list(sys.modules):
        if m == 'sunwhere' or m.startswith('sunwhere.') or any(
                m == n or m.startswith(n + '.') for n in names):
            del sys.modules[m]
    fi = Finder(faults)
    sys.meta_path.insert(0, fi)
    importlib.invalidate_caches()
    return fi
