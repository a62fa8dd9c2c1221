"""C06: the library leaves process-wide state alone, even temporarily."""
import os
import shutil
import sys
import tempfile

from .. import callsim, forkrun, rng as _rng, sched, specs, stack
from . import base

E = sched.E
MON = sched.MON


class StateRun(callsim.Run):
    """Runs the scenario's operations; the values they return are other properties' business."""

    def expect(self, i):
        return None

    def judge(self, i, res, exc, where, op, faulted):
        if faulted is not None and faulted.get('_exc') is not None:
            self.stats['faulted'] += 1
        if exc is not None:
            self.stats['raised'] = self.stats.get('raised', 0) + 1

    def judge_value(self, want, val, exc, where, faulted):
        if faulted is not None and faulted.get('_exc') is not None:
            self.stats['faulted'] += 1

    def check_slot(self, slot, cls, where):
        pass

    def start_thread(self):
        from .. import procstate
        procstate.apply_host_thread(self.sc.get('host', {}))


class Nothing(dict):
    def __missing__(self, k):
        return None


class Prop(base.CallProp):
    ID = 'C06'

    def __init__(self):
        pass

    def prepare(self):
        import warnings
        warnings.simplefilter('ignore')
        stack.third_party()
        sched.patch_locks()
        import gc
        from .. import procstate
        self.src = os.environ['DST_REPO_SRC']
        before0, before1 = procstate.fast(), procstate.slow()
        stack.import_package(cli=False)
        after0, after1 = procstate.fast(), procstate.slow()
        self.import_viol = [
            {'class': 'state-changed', 'where': 'import of the package', 'detail': procstate.show(k, x, y)}
            for x, y in ((before0, after0), (before1, after1)) for k in procstate.diff(x, y)]
        sched.discover()
        sys.setswitchinterval(1000)
        gc.collect()
        gc.freeze()

    # ------------------------------------------------------------ generation
    def gen(self, r, i, tier):
        f = self.fam_rng()
        size = f.choices(['tiny', 'small', 'medium', 'large'], [3, 5, 2, .5])[0]
        fam = specs.gen_family(f, f.randint(2, 5), size, bad=.12, utils=.12)
        if f.random() < .3:
            # a table of every backend, once each
            b = fam[0]
            fam = [dict(b, alg=a, eng=e, t=dict(b['t'], nat=[])) for a, e in r.sample(specs.ALGS, 3)]
        pool = base.read_pool(f, 9, bad=.3)
        nt = r.choices([1, 2], [7, 3])[0]
        tasks, slot, faults = [], 0, []
        for t in range(nt):
            ops = []
            for _ in range(r.randint(2, 4)):
                ops.append({'op': 'call', 'spec': r.randrange(len(fam)), 'slot': slot})
                for a in base.pick_reads(r, r.randint(0, 4), pool):
                    ops.append({'op': 'read', 'slot': slot, 'acc': a})
                slot += 1
            tasks.append(ops)
        if r.random() < .75:
            for _ in range(r.choice([1, 2, 3, 4])):
                ti = r.randrange(nt)
                free = [j for j in range(len(tasks[ti])) if not any(x['task'] == ti and x['op'] == j for x in faults)]
                if free:
                    j = r.choice(free)
                    hi = 2.2 if tasks[ti][j]['op'] == 'call' else 1.2
                    faults.append({'task': ti, 'op': j, 'n': int(10 ** r.uniform(0, hi)), 'site': r.choice(['line', 'call']),
                                   'kind': r.choice(callsim.FAULTS)})
        gran = 'instr' if r.random() < .12 else 'line'
        sc = {'specs': fam, 'tasks': tasks, 'gran': gran, 'faults': faults, 'nests': [],
              'reimport': r.random() < .12}
        if r.random() < .7:
            from .. import procstate
            sc['host'] = {k: r.choice(procstate.HOST[k])
                          for k in sorted(r.sample(sorted(procstate.HOST), r.choice([1, 3, 6, 12])))}
        sc['sched'], sc['policy'] = base.gen_schedule(r, nt, 900 * nt * (6 if gran == 'instr' else 1), gran)
        return sc

    def shrink(self, sc):
        for k in sorted(sc.get('host', {})):
            yield dict(sc, host={x: y for x, y in sc['host'].items() if x != k})
        yield from super().shrink(sc)

    # ------------------------------------------------------------ execution
    def run(self, sc, timeout=60.0, capture=False):
        d = tempfile.mkdtemp(prefix='c06-', dir=os.environ['DST_SCRATCH'])
        try:
            rep = forkrun.run(lambda: self.child(sc, d, capture), timeout)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        rep['fp'] = _rng.digest([rep['trace'], rep['fired_at'], [(s.get('uc'), s.get('alg'), s.get('eng')) for s in sc['specs']]])
        rep['nontrivial'] = rep['observed'] > 50
        rep['digest'] = _rng.digest([rep['trace'], rep['fired_at'], rep['stats'], rep['points'], rep['observed'],
                                     [(v['class'], v['where']) for v in rep['viol']]])
        rep['sample'] = self.sample(sc, rep)
        rep['probes'] = {'state-snapshots': rep['observed'], 'gran-' + sc['gran']: 1}
        return rep

    def child(self, sc, d, capture):
        from .. import procstate
        home = os.path.join(d, 'home')
        os.makedirs(home)
        os.chdir(home)
        os.environ['HOME'] = home
        fd = os.open(os.path.join(d, 'stdout'), os.O_CREAT | os.O_RDWR)
        os.dup2(fd, 1)
        os.close(fd)
        sys.stdout = open(1, 'w', closefd=False)
        procstate.apply_host(sc.get('host', {}), home)
        procstate.apply_host_thread(sc.get('host', {}))
        viol, seen = [], set()
        base0 = procstate.fast()
        base1 = procstate.slow()
        count = [0]

        def look(where):
            count[0] += 1
            now = procstate.fast()
            if now != base0:
                for k in procstate.diff(base0, now):
                    if k not in seen:
                        seen.add(k)
                        viol.append({'class': 'state-changed', 'where': where,
                                     'detail': procstate.show(k, base0, now)})

        def look_slow(where):
            look(where)
            now = procstate.slow()
            for k in procstate.diff(base1, now):
                if k not in seen:
                    seen.add(k)
                    viol.append({'class': 'state-changed', 'where': where,
                                 'detail': procstate.show(k, base1, now)})
        if sc.get('reimport'):
            self.reimport(look)
            look_slow('after the import')
            sched.discover()
        orc = [{'lines': 200, 'acc': Nothing()} for _ in sc['specs']]
        run = StateRun(sc, orc, lambda sim, task, label: look(f'task {task.idx} op {task.op}, in {label}'),
                       lambda rn, where: look_slow('after ' + where), capture)
        rep = run.execute()
        look_slow('end of run')
        rep['viol'] = self.import_viol + viol
        rep['observed'] = count[0]
        return rep

    def reimport(self, look):
        """Import the package again from scratch, watched line by line."""
        for m in [m for m in sys.modules if m == 'sunwhere' or m.startswith('sunwhere.')]:
            del sys.modules[m]
        prefix = os.path.join(self.src, 'sunwhere') + os.sep
        MON.use_tool_id(sched.TOOL, 'dst')
        busy = [False]

        def on_line(code, line):
            if not code.co_filename.startswith(prefix):
                return MON.DISABLE
            if busy[0]:
                return None
            busy[0] = True
            try:
                look(f'import, {os.path.basename(code.co_filename)}:{line}')
            finally:
                busy[0] = False
            return MON.DISABLE
        MON.register_callback(sched.TOOL, E.LINE, on_line)
        MON.set_events(sched.TOOL, E.LINE)
        try:
            stack.import_package(cli=False)
        finally:
            MON.set_events(sched.TOOL, 0)
            MON.register_callback(sched.TOOL, E.LINE, None)
            MON.free_tool_id(sched.TOOL)
            MON.restart_events()
