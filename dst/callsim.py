"""Simulated call histories: executes a scenario (tasks, schedule, faults, nested
calls, writes) against the real library and compares everything observed with
what the same call yields alone in a fresh process."""
import copy
import gc
import json
import time

import numpy as np
import pandas as pd
import xarray as xr

from . import canon, forkrun, sched, specs

# ------------------------------------------------------------------ oracles


class Oracle:
    """Alone-in-a-fresh-process answers, one forked child per specification."""

    def __init__(self, timeout=60.0, isolate_reads=False):
        self.isolate_reads = isolate_reads
        self.cache = {}
        self.timeout = timeout
        self.count = 0

    @staticmethod
    def key(spec):
        return json.dumps(spec, sort_keys=True)

    def get(self, spec, accs=()):
        k = self.key(spec)
        ent = self.cache.get(k)
        if ent is None or any(json.dumps(a) not in ent['acc'] for a in accs):
            need = [a for a in accs if ent is None or json.dumps(a) not in ent['acc']]
            got = forkrun.run(lambda: self._compute(spec, need), self.timeout)
            self.count += 1
            if ent is None:
                if len(self.cache) > 300:
                    self.cache.clear()
                ent = self.cache[k] = {'res': got['res'], 'acc': {}, 'acc_lines': {}, 'lines': got['lines'],
                                       'calls': got['calls']}
            ent['acc'].update(got['acc'])
            ent['acc_lines'].update(got.get('acc_lines', {}))
        return ent

    def _compute(self, spec, accs):
        out = {'acc': {}}
        sw = None
        with sched.Counter() as cnt:
            try:
                sw = specs.invoke(spec)
                exc = None
            except Exception as e:      # noqa: BLE001
                exc = e
        out['lines'], out['calls'] = cnt.lines, cnt.calls
        if exc is not None:
            out['res'] = canon.canon(exc)
            return out
        if spec.get('fn') == 'util':
            out['res'] = canon.canon(sw)
            return out

        def one(a):
            with sched.Counter() as c:
                try:
                    v = specs.read(sw, a)
                except Exception as e:      # noqa: BLE001
                    v = e
            return canon.canon(v), c.lines, c.calls
        out['res'] = snapshot(sw)
        for a in accs:
            v, ln, _ = forkrun.run(lambda a=a: one(a), 60.0) if self.isolate_reads else one(a)
            out['acc'][json.dumps(a)] = v
            out.setdefault('acc_lines', {})[json.dumps(a)] = ln
        return out


def snapshot(sw):
    """Everything stored in a result, as read through its public attributes."""
    return ('dict', {n: canon.canon(getattr(sw, n)) for n in specs.RAW})


# ------------------------------------------------------------------ faults

class SimFault(Exception):
    pass


class SimFaultRuntime(RuntimeError):
    """A failing dependency (numexpr, numpy)."""


FAULTS = ['MemoryError', 'KeyboardInterrupt', 'RuntimeError', 'OSError', 'SystemExit', 'RecursionError',
          'FloatingPointError', 'ValueError', 'TimeoutError']


def make_fault(f):
    k = f['kind']
    if k == 'MemoryError':
        return MemoryError('simulated: out of memory')
    if k == 'KeyboardInterrupt':
        return KeyboardInterrupt('simulated: interrupted')
    if k == 'SystemExit':
        return SystemExit('simulated: terminated')
    if k == 'OSError':
        return OSError(12, 'simulated: cannot allocate')
    if k == 'RecursionError':
        return RecursionError('simulated: stack exhausted')
    if k == 'FloatingPointError':
        return FloatingPointError('simulated')
    if k == 'ValueError':
        return ValueError('simulated: dependency failed')
    if k == 'TimeoutError':
        return TimeoutError('simulated: deadline signal')
    return SimFaultRuntime('simulated: dependency failed')


# ------------------------------------------------------------------ writes

def scribble(v, how, val):
    """In-place writes to something a call returned; returns number of arrays written."""
    n = 0

    def arr(a):
        nonlocal n
        if not isinstance(a, np.ndarray) or a.size == 0 or not a.flags.writeable:
            return
        try:
            if a.dtype.kind == 'f':
                if how == 'scale':
                    a *= val
                elif how == 'add':
                    a += val
                elif how == 'one':
                    a.reshape(-1)[0:1] = val
                else:
                    a[...] = val
            elif a.dtype.kind == 'M':
                a[...] = np.datetime64(int(val) * 1000, 's')
            elif a.dtype.kind == 'm':
                a[...] = np.timedelta64(int(val), 's')
            elif a.dtype.kind in 'iu':
                a[...] = int(val)
            elif a.dtype.kind == 'O':
                a[...] = None
            else:
                return
            n += 1
        except (ValueError, TypeError):
            pass
    if isinstance(v, xr.DataArray):
        if how == 'attrs':
            v.attrs['units'] = 'scribbled'
            v.attrs['x'] = val
            return 1
        if how == 'name':
            v.name = 'scribbled'
            return 1
        if how == 'coords':
            for c in list(v.coords):
                v.coords[c].attrs['x'] = val
                arr(v.coords[c].values)
                arr(v.coords[c].variable.data if isinstance(v.coords[c].variable.data, np.ndarray) else None)
        elif how == 'recoord':
            for c in list(v.coords):
                try:
                    v.coords[c] = v.coords[c] * 0
                    n += 1
                except (TypeError, ValueError):
                    pass
        else:
            arr(v.values)
            arr(v.variable.data if isinstance(v.variable.data, np.ndarray) else None)
    elif isinstance(v, pd.DatetimeIndex):
        # its values are read-only; its labels are not
        if how == 'attrs':
            try:
                v.freq = 'h' if len(v) < 2 else v[1] - v[0]
                return 1
            except (ValueError, TypeError):
                pass
        v.name = 'scribbled'
        return 1
    elif isinstance(v, np.ndarray):
        arr(v)
    return n


def overwrite(dst, src):
    """Write src's values into the existing argument object dst, in place; False if impossible."""
    if isinstance(dst, np.ndarray) and isinstance(src, np.ndarray):
        if dst.shape != src.shape or dst.dtype != src.dtype or not dst.flags.writeable:
            return False
        dst[...] = src
        return True
    if isinstance(dst, list) and isinstance(src, list):
        dst[:] = src
        return True
    return False


def freeze_arg(a):
    if isinstance(a, np.ndarray):
        return ('np', a.dtype.str, a.shape, a.flags.writeable, a.copy())
    if isinstance(a, (list, tuple)):
        return ('seq', type(a).__name__, [repr(x) for x in a])
    if isinstance(a, pd.DatetimeIndex):
        return ('idx', str(a.tz), a.asi8.copy(), a.name, str(a.dtype), str(a.freq))
    return ('v', type(a).__name__, repr(a))


def arg_changed(f, a):
    g = freeze_arg(a)
    if f[0] != g[0]:
        return 'type changed'
    if f[0] == 'np':
        if f[1:4] != g[1:4]:
            return f'dtype/shape/flags {f[1:4]} -> {g[1:4]}'
        x, y = f[4], g[4]
        same = (x.tobytes() == y.tobytes()) if x.dtype != object else all(p is q or p == q for p, q in zip(x.ravel(), y.ravel()))
        return None if same else 'values changed'
    if f[0] == 'idx':
        return None if (f[1] == g[1] and np.array_equal(f[2], g[2]) and f[3:] == g[3:]) else 'index changed'
    return None if f == g else 'contents changed'


# ------------------------------------------------------------------ executor

class Run:
    """Executes one scenario inside the (forked) current process."""

    def __init__(self, sc, oracles, observer=None, after_op=None, capture=False):
        self.sc = sc
        self.oracles = oracles              # list parallel to sc['specs']
        self.viol = []
        self.slots = {}
        self.slot_spec = {}
        self.args = {}
        self.frozen = {}
        self.handles = []
        self.stats = {'calls': 0, 'reads': 0, 'writes': 0, 'faulted': 0, 'recovered': 0, 'nested': 0}
        self.observer = observer
        self.after_op = after_op
        self.capture = capture
        self.history = []

    # -- helpers
    def bad(self, cls, where, detail):
        self.viol.append({'class': cls, 'where': where, 'detail': detail})

    def expect(self, spec_i):
        return self.oracles[spec_i]['res']

    def check_slot(self, slot, cls, where):
        if slot not in self.slots:
            return
        try:
            snap = snapshot(self.slots[slot])
        except sched.Deadlock:
            raise
        except Exception as e:      # noqa: BLE001
            self.bad(cls, where, f'reading the result raised {type(e).__name__}: {e}')
            return
        d = canon.diff(self.expect(self.slot_spec[slot]), snap, 'result')
        if d:
            self.bad(cls, where, d)

    def get_args(self, i, op):
        if 'into' in op and op['into'] in self.args:
            old = self.args[op['into']]
            new = specs.make_args(self.sc['specs'][i])
            out = []
            for o, nw in zip(old, new):
                out.append(o if overwrite(o, nw) else nw)
            for j in list(self.args):
                # the overwritten objects no longer describe the calls they were made for
                if any(x is y for x in self.args[j] for y in out):
                    self.args.pop(j)
                    self.frozen.pop(j, None)
            self.args[i] = out
            self.frozen[i] = [freeze_arg(a) for a in out]
            return out
        if op.get('fresh') or i not in self.args:
            self.args[i] = specs.make_args(self.sc['specs'][i])
            self.frozen[i] = [freeze_arg(a) for a in self.args[i]]
        return self.args[i]

    def check_args(self, where):
        for i, fz in list(self.frozen.items()):
            for nm, f, a in zip(('times', 'latitude', 'longitude'), fz, self.args[i]):
                c = arg_changed(f, a)
                if c:
                    self.bad('argument-modified', where, f'{nm} of spec {i}: {c}')
                    self.frozen.pop(i, None)
                    break

    # -- ops
    def do(self, op, where, faulted=None, sim=None, task=None, j=None):
        """Perform one op. The library is only entered between begin() and end()."""
        def begin():
            if sim is not None and task is not None and j is not None:
                sim.begin_op(task, j)

        def end():
            if sim is not None and task is not None and j is not None:
                task.op = -1
        kind = op['op']
        if kind == 'call':
            i = op['spec']
            spec = self.sc['specs'][i]
            args = self.get_args(i, op)
            res = exc = None
            begin()
            try:
                res = specs.invoke(spec, args)
            except sched.Deadlock:
                raise
            except BaseException as e:      # noqa: BLE001
                exc = e
            finally:
                end()
            self.stats['calls'] += 1
            self.judge(i, res, exc, where, op, faulted)
            if exc is None and spec.get('fn') == 'util':
                if op.get('scribble'):
                    self.stats['writes'] += scribble(res, op['scribble'], op.get('val', 60.))
                else:
                    self.handles.append((i, None, res, where))
            elif exc is None:
                self.slots[op['slot']] = res
                self.slot_spec[op['slot']] = i
                if not op.get('nocheck'):
                    self.check_slot(op['slot'], 'wrong-answer', where)
        elif kind == 'read':
            if op['slot'] not in self.slots:
                return
            sw = self.slots[op['slot']]
            i = self.slot_spec[op['slot']]
            val = exc = None
            begin()
            try:
                val = specs.read(sw, op['acc'])
            except sched.Deadlock:
                raise
            except BaseException as e:      # noqa: BLE001
                exc = e
            finally:
                end()
            self.stats['reads'] += 1
            want = self.oracles[i]['acc'][json.dumps(op['acc'])]
            where += ' ' + specs.acc_name(op['acc'])
            if want is not None and want[0] == 'exc' and op['acc'] not in specs.BAD_READS:
                self.bad('cannot-be-read', where, f'alone, it raises {canon.short(want)}')
            self.judge_value(want, val, exc, where, faulted)
            if exc is None:
                if op.get('keep') is not None:
                    self.slots[('v', op['keep'])] = val
                    self.handles.append((i, op['acc'], val, where))
                    self.slot_spec[('v', op['keep'])] = i
                if op.get('scribble'):
                    self.stats['writes'] += scribble(val, op['scribble'], op.get('val', 60.))
                    self.handles = [h for h in self.handles if h[2] is not val]
        elif kind == 'check':
            self.check_slot(op['slot'], 'result-changed', where)
        elif kind == 'checkargs':
            self.check_args(where)
        elif kind == 'writeargs':
            i = op['spec']
            if i in self.args:
                for a in self.args[i]:
                    self.stats['writes'] += scribble(a, op.get('how', 'fill'), op.get('val', 12.))
                    if isinstance(a, list) and a:
                        a[:] = [a[-1]] * len(a)
                        self.stats['writes'] += 1
                # these objects no longer describe spec i
                arrs = self.args.pop(i)
                self.frozen.pop(i, None)
                for k in list(self.args):
                    if any(x is y for x in self.args[k] for y in arrs):
                        self.args.pop(k)
                        self.frozen.pop(k, None)
        elif kind == 'dropargs':
            self.args.pop(op['spec'], None)
            self.frozen.pop(op['spec'], None)
        elif kind == 'drop':
            self.slots.pop(op['slot'], None)
            if op.get('gc'):
                gc.collect()
        else:
            raise KeyError(kind)

    def judge(self, i, res, exc, where, op, faulted):
        want = self.expect(i)
        if want[0] == 'exc' and not self.sc['specs'][i].get('bad'):
            self.bad('valid-call-fails', where, f'alone, with valid arguments, it raises {canon.short(want)}')
        if faulted is not None and faulted.get('_exc') is not None:
            inj = faulted['_exc']
            self.stats['faulted'] += 1
            if exc is not None:
                if isinstance(inj, (KeyboardInterrupt, SystemExit)) and not isinstance(exc, type(inj)):
                    self.bad('interrupt-lost', where, f'{type(inj).__name__} became {type(exc).__name__}: {exc}')
                return
            if isinstance(inj, (KeyboardInterrupt, SystemExit)):
                self.bad('interrupt-lost', where, f'{type(inj).__name__} was swallowed')
            # returned normally: the ordinary check of the result applies
        if exc is not None:
            got = canon.canon(exc)
            if want[0] != 'exc':
                self.bad('wrong-answer', where, f'raised {canon.short(got)}, alone it returns normally')
            elif want[1] != got[1] or want[2] != got[2]:
                self.bad('wrong-answer', where, f'raised {canon.short(got)}, alone it raises {canon.short(want)}')
        elif want[0] == 'exc':
            self.bad('wrong-answer', where, f'returned normally, alone it raises {canon.short(want)}')
        elif self.sc['specs'][i].get('fn') == 'util':
            d = canon.diff(want, canon.canon(res), 'value')
            if d:
                self.bad('wrong-answer', where, d)

    def judge_value(self, want, val, exc, where, faulted):
        if faulted is not None and faulted.get('_exc') is not None:
            inj = faulted['_exc']
            self.stats['faulted'] += 1
            if exc is not None:
                if isinstance(inj, (KeyboardInterrupt, SystemExit)) and not isinstance(exc, type(inj)):
                    self.bad('interrupt-lost', where, f'{type(inj).__name__} became {type(exc).__name__}: {exc}')
                return
            if isinstance(inj, (KeyboardInterrupt, SystemExit)):
                self.bad('interrupt-lost', where, f'{type(inj).__name__} was swallowed')
        got = canon.canon(exc if exc is not None else val)
        d = canon.diff(want, got, 'value')
        if d:
            self.bad('wrong-read', where, d)

    # -- main
    def start_thread(self):
        pass

    def execute(self):
        sc = self.sc
        faults = [dict(f) for f in sc.get('faults', ())]
        nests = [dict(n) for n in sc.get('nests', ())]
        fmap = {}
        for f in faults:
            fmap.setdefault((f['task'], f['op']), []).append(f)

        def body(ti):
            def fn(sim, task):
                self.start_thread()
                for j, op in enumerate(sc['tasks'][ti]):
                    where = f'task {ti} op {j} ({op["op"]})'
                    fl = fmap.get((ti, j), [])
                    f0 = fl[0] if fl else None
                    self.do(op, where, f0, sim, task, j)
                    if f0 is not None and op['op'] in ('call', 'read') and '_exc' in f0 and sc.get('retry', True):
                        # once the fault is over the same call must work
                        self.stats['recovered'] += 1
                        op2 = dict(op)
                        self.do(op2, where + ' retried', None, sim, task, 10_000 + j)
                    if self.after_op is not None:
                        self.after_op(self, where)
                    sim.op_boundary(task)
            return fn
        sim = sched.Sim([body(i) for i in range(len(sc['tasks']))], sc.get('sched', []),
                        gran=sc.get('gran', 'line'), faults=faults, nests=nests, observer=self.observer)
        if self.capture:
            sim.capture = []
        sim.fault_fn = make_fault

        def nest(task, n):
            self.stats['nested'] += 1
            for k, op in enumerate(n['ops']):
                self.do(op, f'nested call in task {task.idx} op {task.op}')
        sim.nest_fn = nest
        real_sleep = time.sleep
        time.sleep = sched.sim_sleep
        try:
            sim.run()
        finally:
            time.sleep = real_sleep
        if sim.deadlock:
            self.bad('deadlock', f'tasks {sim.dead_info}', 'no task can make progress')
        for t in sim.tasks:
            if t.exc is not None:
                raise RuntimeError(f'harness error in task {t.idx}') from t.exc
        if not sim.deadlock:
            for s in list(self.slots):
                if not (isinstance(s, tuple) and s[0] == 'v'):
                    self.check_slot(s, 'result-changed', f'slot {s} at end of run')
            for i, acc, val, where in self.handles:
                want = self.expect(i) if acc is None else self.oracles[i]['acc'][json.dumps(acc)]
                if want is None or want[0] == 'exc':
                    continue
                d = canon.diff(want, canon.canon(val), 'value')
                if d:
                    self.bad('value-changed', f'{specs.acc_name(acc) if acc else "times"} obtained at {where}', d)
            self.check_args('end of run')
        fired = {}
        for k, _ in sim.fired:
            fired[k] = fired.get(k, 0) + 1
        return {'viol': self.viol, 'switches': sim.switches, 'points': sim.total_points,
                'trace': sim.trace.hexdigest()[:16], 'fired': fired, 'fired_at': sim.fired[:20],
                'sites': sorted(sim.sites), 'stats': self.stats,
                'schedule_trace': sim.capture[:400] if sim.capture is not None else None}


def oracle_accs(sc):
    """Accessors needed per spec index."""
    need = {}
    slot_spec = {}

    def scan(ops):
        for op in ops:
            if op['op'] == 'call':
                slot_spec.setdefault(op.get('slot'), set()).add(op['spec'])
    for t in sc['tasks']:
        scan(t)
    for n in sc.get('nests', ()):
        scan(n['ops'])

    def scan2(ops):
        for op in ops:
            if op['op'] == 'read':
                for i in slot_spec.get(op['slot'], ()):
                    need.setdefault(i, {})[json.dumps(op['acc'])] = op['acc']
    for t in sc['tasks']:
        scan2(t)
    for n in sc.get('nests', ()):
        scan2(n['ops'])
    return need


def oracles_for(sc, oracle):
    need = oracle_accs(sc)
    return [oracle.get(s, list(need.get(i, {}).values())) for i, s in enumerate(sc['specs'])]


def execute(sc, oracle, observer_factory=None, timeout=60.0, capture=False):
    """Run a scenario in a forked child; returns its report."""
    orc = oracles_for(sc, oracle)

    def child():
        obs = after = None
        if observer_factory is not None:
            obs, after = observer_factory(sc)
        return Run(sc, orc, obs, after, capture).execute()
    return forkrun.run(child, timeout)


def clone(x):
    return copy.deepcopy(x)
