"""C07: answers do not depend on the machine, its clock or its settings."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

from .. import ambient, canon, forkrun, rng as _rng, sched, specs, stack
from ..minimize import chunks_removed
from . import base

DAY = 86400 * 10**9
ZONES = ['Asia/Kathmandu', 'America/New_York', 'Europe/Madrid', 'Pacific/Apia', 'Australia/Lord_Howe', 'XXX-14', 'YYY+11:30',
         'Africa/Casablanca', 'America/Sao_Paulo', 'bad/zone']
LOCALES = ['de_DE.UTF-8', 'tr_TR.UTF-8', 'fa_IR.UTF-8', 'C', 'C.UTF-8']
STDLIB_ENV = (os.__file__, '<frozen os', '<frozen _collections_abc')
KNOBS = ['SUNWHERE_ENGINE', 'SUNWHERE_ALGORITHM', 'DEBUG', 'LANG', 'NUMEXPR_MAX_THREADS', 'OMP_NUM_THREADS', 'COLUMNS',
         'PYTHONOPTIMIZE', 'TZDIR_X', 'SOURCE_DATE_EPOCH', 'HOME', 'USER', 'CI']
VALUES = ['0', '1', 'numpy', 'psa', 'false', '', '/nonexistent', '16', 'x' * 200]


class Prop(base.CallProp):
    ID = 'C07'

    def __init__(self):
        pass

    def prepare(self):
        stack.bring_up(locks=False, cli=False)
        self.lib = ambient.shim()
        self.neutral = {}
        self.keys = forkrun.run(self.discover_keys)

    # ------------------------------------------------------------ what the package asks the environment for
    def discover_keys(self):
        prefix = sched.PKG + os.sep
        got = set()
        orig = os._Environ.__getitem__

        def spy(self_, k):
            f = sys._getframe(1)
            while f is not None and f.f_code.co_filename.startswith(STDLIB_ENV):
                f = f.f_back
            if f is not None and f.f_code.co_filename.startswith(prefix):
                got.add(k)
            return orig(self_, k)
        os._Environ.__getitem__ = spy
        ambient.import_again()
        r = _rng.rng_of('keys')
        for uc in specs.USECASES:
            for alg in specs.ALGS:
                s = specs.gen_spec(r, 'tiny', uc, alg)
                try:
                    sw = specs.invoke(s)
                    for a in specs.DERIVED:
                        specs.read(sw, a)
                except Exception:   # noqa: BLE001
                    pass
        return sorted(k for k in got if isinstance(k, str))

    # ------------------------------------------------------------ generation
    def gen(self, r, i, tier):
        f = self.fam_rng()
        size = f.choices(['tiny', 'small', 'medium', 'large'], [3, 5, 2, 1.5])[0]
        fam = [specs.gen_spec(f, size)]
        if f.random() < .6:
            fam.append(specs.variant(f, fam[0]) if f.random() < .6 else specs.gen_spec(f, size))
        if f.random() < .15:
            fam.append({'fn': 'util', 'name': f.choice(['true_solar_time', 'universal_time_coordinated']),
                        't': {'s': specs.Y2000 + f.randrange(10**9), 'd': 3600, 'n': 3, 'form': 'npns'},
                        'lat': {'v': [0.], 'form': 'list'}, 'lon': {'v': [12.5], 'form': 'list'}, 'uc': 'util'})
        if f.random() < .2:
            # what is refused is refused everywhere
            fam.append(specs.bad_variant(f, fam[0]))
        ops = []
        for k in range(len(fam)):
            ops.append({'op': 'call', 'spec': k, 'slot': k})
            if fam[k].get('fn') != 'util' and not fam[k].get('bad'):
                accs = f.sample(specs.DERIVED, 6)
                if f.random() < .3:
                    accs.insert(f.randrange(7), f.choice(specs.BAD_READS))
                for a in accs:
                    ops.append({'op': 'read', 'slot': k, 'acc': a})
        nodes = [self.gen_node(r) for _ in range(r.choice([2, 3, 4]))]
        if r.random() < .09:
            n = self.gen_node(r)
            n['fresh'] = {'hashseed': str(r.randrange(2**32)), 'opt': r.choice([0, 1, 2])}
            n['env'] = dict(n.get('env', {}))
            n['env'].update(r.choice([{}, {'NUMEXPR_NUM_THREADS': '4'}, {'PYTHONUTF8': '1'}, {'OMP_NUM_THREADS': '3'}]))
            nodes = nodes[:1] + [n]
        return {'specs': fam, 'ops': ops, 'nodes': nodes}

    def gen_clock(self, r):
        base_s = r.choice([0, 86399, 946684799, 1709164800, 1735689599, 2**31 - 1, 4102444800, -86400 * 3650,
                           r.randrange(0, 2**32), r.randrange(1700000000, 1800000000)])
        c = {'base': base_s * 10**9 + r.randrange(10**9), 'step': r.choice([1, 1000, 10**6, 10**9, 3600 * 10**9, -10**9, 0]),
             'jumps': []}
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            c['jumps'].append([r.choice([1, 1, 2, 3, 5, 9]), r.choice([-1, 1]) * r.choice([10**9, 3600 * 10**9, DAY, 200 * DAY, 4000 * DAY])])
        return c

    def gen_node(self, r):
        n = {}
        if r.random() < .75:
            n['clock'] = self.gen_clock(r)
            if r.random() < .5:
                n['iclock'] = self.gen_clock(r)
        if r.random() < .5:
            n['entropy'] = r.randrange(1, 2**31)
        if r.random() < .25:
            n['mono'] = [r.randrange(10**15), r.choice([1, 10**6, 10**9, 10**11])]
        if r.random() < .5:
            n['tz'] = r.choice(ZONES)
        if r.random() < .35:
            n['locale'] = r.choice(LOCALES)
        if r.random() < .25:
            n['cwd'] = r.choice(['gone', 'decoys', 'other'])
        if r.random() < .3:
            n['seterr'] = r.choice([{'all': 'ignore'}, {'all': 'warn'}, {'invalid': 'ignore', 'divide': 'warn'}])
        if r.random() < .3:
            n['npseed'] = r.randrange(1000)
        if r.random() < .3:
            n['pyseed'] = r.randrange(1000)
        if r.random() < .3:
            n['threads'] = r.choice([1, 2, 3, 8])
        if r.random() < .2:
            n['affinity'] = r.choice([1, 2])
        if r.random() < .2:
            n['cpu_count'] = r.choice([1, 2, 64])
        env = {}
        if r.random() < .3:
            for k in r.sample(KNOBS, 3):
                env[k] = r.choice(VALUES + [None])
        if self.keys and r.random() < .6:
            for k in self.keys:
                if k not in ('TZ', 'HOME') and r.random() < .7:
                    env[k] = r.choice(VALUES + [None])
        if env:
            n['env'] = env
        n['reimport'] = bool(env) or r.random() < .6
        return n

    # ------------------------------------------------------------ execution
    def in_process(self, sc, node):
        d = tempfile.mkdtemp(prefix='c07-', dir=os.environ['DST_SCRATCH'])

        def child():
            ambient.apply(node, d)
            if node.get('reimport'):
                c = node.get('iclock', node.get('clock'))
                if c:
                    ambient.set_clock(self.lib, c)
                self.lib.dst_entropy(1, node.get('entropy', 0))
                ambient.import_again()
            return ambient.perform(sc, self.lib, node)
        try:
            return forkrun.run(child, 60.)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def fresh(self, sc, node):
        d = tempfile.mkdtemp(prefix='c07f-', dir=os.environ['DST_SCRATCH'])
        try:
            with open(os.path.join(d, 'req'), 'wb') as fh:
                pickle.dump({'sc': sc, 'node': node, 'dir': d}, fh)
            env = dict(os.environ)
            env.update({k: v for k, v in node.get('env', {}).items() if v is not None})
            for k, v in node.get('env', {}).items():
                if v is None:
                    env.pop(k, None)
            # these decide which interpreter, package and scratch space are used
            for k in ('PYTHONPATH', 'DST_SCRATCH', 'DST_VERIF', 'DST_SHIM', 'LD_PRELOAD', 'DST_REPO_SRC', 'LOCPATH',
                      'PYTHONOPTIMIZE', 'PYTHONPYCACHEPREFIX', 'PYTHONDONTWRITEBYTECODE', 'HOME'):
                if k in os.environ:
                    env[k] = os.environ[k]
                else:
                    env.pop(k, None)
            env['PYTHONHASHSEED'] = node['fresh']['hashseed']
            if node.get('tz'):
                env['TZ'] = node['tz']
            if node.get('locale'):
                env['LC_ALL'] = node['locale']
            c = node.get('iclock', node.get('clock'))
            if c:
                env['DST_CLOCK'] = ambient.clock_env(c)
            env['DST_ENTROPY'] = str(node.get('entropy', 0))
            p = subprocess.run([sys.executable, '-B'] + ['-O'] * node['fresh']['opt'] +
                               [os.path.join(os.environ['DST_VERIF'], 'dst', 'freshnode.py'),
                                os.path.join(d, 'req'), os.path.join(d, 'out')],
                               env=env, capture_output=True, timeout=120, text=True)
            if p.returncode:
                raise RuntimeError('node failed: ' + p.stderr[-2000:])
            return pickle.load(open(os.path.join(d, 'out'), 'rb'))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, sc, timeout=60.0, capture=False):
        key = json.dumps([sc['specs'], sc['ops']], sort_keys=True)
        want = self.neutral.get(key)
        if want is None:
            if len(self.neutral) > 40:
                self.neutral.clear()
            want = self.neutral[key] = self.in_process(sc, ambient.NEUTRAL)
        viol, fired, trace = [], {}, []
        simt = 0.
        for k, node in enumerate(sc['nodes']):
            got = self.fresh(sc, node) if node.get('fresh') else self.in_process(sc, node)
            for what in node:
                if what == 'reimport' and not node[what]:
                    continue
                fired[what] = fired.get(what, 0) + 1
            for c in ('clock', 'iclock'):
                if c in node:
                    simt += sum(abs(by) for _, by in node[c]['jumps']) / 1e9
                    if node[c]['jumps']:
                        fired['clock-jump'] = fired.get('clock-jump', 0) + len(node[c]['jumps'])
            trace.append([got['reads'], got['entropy']])
            for op, w, g in zip(sc['ops'], want['out'], got['out']):
                dd = canon.diff(w, g, 'value')
                if dd:
                    nm = specs.acc_name(op['acc']) if op['op'] == 'read' else 'call'
                    viol.append({'class': 'ambient-dependent', 'where': f'node {k}, {nm} on result {op["slot"]}',
                                 'detail': dd + f' under {json.dumps({x: y for x, y in node.items() if y})[:300]}'})
                    break
        rep = {'viol': viol, 'fired': fired, 'fired_at': [], 'switches': 0, 'points': len(sc['ops']) * len(sc['nodes']),
               'trace': _rng.digest(trace), 'sites': [], 'sim_time': simt,
               'stats': {'nodes': len(sc['nodes']), 'clock-readings': sum(t[0] for t in trace)}}
        rep['fp'] = _rng.digest([[sorted(n) for n in sc['nodes']], [n.get('clock') for n in sc['nodes']],
                                 [(s.get('uc'), s.get('alg'), s.get('eng')) for s in sc['specs']]])
        rep['nontrivial'] = len(fired) > 0
        rep['digest'] = _rng.digest([trace, viol])
        rep['sample'] = {'nodes': sc['nodes'][:2], 'ops': len(sc['ops'])}
        rep['probes'] = {'keys-read-from-environment': len(self.keys)}
        return rep

    def shrink(self, sc):
        for c in chunks_removed(sc['nodes'], 1):
            yield dict(sc, nodes=c)
        for c in chunks_removed(sc['ops'], 1):
            if not any(o['op'] == 'read' and o['slot'] not in {p['slot'] for p in c if p['op'] == 'call'} for o in c):
                yield dict(sc, ops=c)
        for k, n in enumerate(sc['nodes']):
            for key in list(n):
                if key == 'reimport':
                    if n[key]:
                        yield dict(sc, nodes=sc['nodes'][:k] + [dict(n, reimport=False)] + sc['nodes'][k + 1:])
                    continue
                yield dict(sc, nodes=sc['nodes'][:k] + [{a: b for a, b in n.items() if a != key}] + sc['nodes'][k + 1:])
            for key in ('clock', 'iclock'):
                if n.get(key, {}).get('jumps'):
                    for j in chunks_removed(n[key]['jumps']):
                        yield dict(sc, nodes=sc['nodes'][:k] + [dict(n, **{key: dict(n[key], jumps=j)})] + sc['nodes'][k + 1:])
            if n.get('env'):
                for kk in n['env']:
                    yield dict(sc, nodes=sc['nodes'][:k] + [dict(n, env={a: b for a, b in n['env'].items() if a != kk})]
                               + sc['nodes'][k + 1:])
        used = sorted({o['spec'] for o in sc['ops'] if o['op'] == 'call'})
        if len(used) < len(sc['specs']):
            m = {o: i for i, o in enumerate(used)}
            yield dict(sc, specs=[sc['specs'][u] for u in used],
                       ops=[dict(o, spec=m[o['spec']]) if o['op'] == 'call' else o for o in sc['ops']])
        for i, s in enumerate(sc['specs']):
            for c in self.simpler_spec(s):
                yield dict(sc, specs=sc['specs'][:i] + [c] + sc['specs'][i + 1:])
