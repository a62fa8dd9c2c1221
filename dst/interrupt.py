"""A worker that dies at the n-th line of the package: raises there, once."""
from . import sched
from .sched import CODES, E, MON     # noqa: F401

TOOL = 3


class WorkerDied(BaseException):
    pass


class Die:
    def __init__(self, n, only=None):
        self.n, self.k, self.fired, self.where = n, 0, False, None
        self.codes = [c for c in sched.CODES if only is None or c.co_name in only] or sched.CODES

    def __enter__(self):
        MON.use_tool_id(TOOL, 'dst-die')
        MON.register_callback(TOOL, E.LINE, self._l)
        for c in self.codes:
            MON.set_local_events(TOOL, c, E.LINE)
        return self

    def _l(self, code, line):
        self.k += 1
        if not self.fired and self.k >= self.n and line not in sched.excluded_lines(code.co_filename):
            self.fired = True
            self.where = f'{code.co_name}:{line}'
            raise WorkerDied(self.where)

    def __exit__(self, *a):
        for c in self.codes:
            MON.set_local_events(TOOL, c, 0)
        MON.register_callback(TOOL, E.LINE, None)
        MON.free_tool_id(TOOL)
        return False
