"""Common parts of the call-history properties."""
import copy
import json

from .. import callsim, rng as _rng, specs, stack
from ..minimize import chunks_removed


def gen_schedule(r, ntasks, points, gran, policy=None):
    if ntasks == 1:
        return [], 'seq'
    policy = policy or r.choice(['lockstep', 'lockstep', 'rand', 'rand', 'pct', 'pct', 'burst'])
    out = []
    scale = 6 if gran == 'instr' else 1
    if policy == 'lockstep':
        k = r.choice([1, 1, 2, 3, 5]) * r.choice([1, scale])
        n = min(4000, max(2, points // k + 4))
        order = list(range(ntasks))
        r.shuffle(order)
        off = r.randrange(0, 40 * scale)
        if off and r.random() < .6:
            out.append([order[0], off])
        out += [[order[i % ntasks], k] for i in range(n)]
    elif policy == 'rand':
        mean = r.choice([2, 5, 20, 60]) * scale
        tot = 0
        while tot < points and len(out) < 3000:
            s = 1 + int(r.expovariate(1 / mean))
            out.append([r.randrange(ntasks), s])
            tot += s
    elif policy == 'pct':
        for _ in range(r.randint(2, 7)):
            out.append([r.randrange(ntasks), 1 + r.randrange(max(2, points // 2))])
    else:
        # one task runs up to an arbitrary point, the others run to completion meanwhile
        for _ in range(r.randint(1, 3)):
            out.append([r.randrange(ntasks), 1 + r.randrange(max(2, points // ntasks))])
            others = list(range(ntasks))
            r.shuffle(others)
            out += [[o, 10 ** 6] for o in others[:max(1, ntasks - 1)]]
    return out, policy


def estimate_points(sc, oracles, gran):
    tot = 0
    for t in sc['tasks']:
        for op in t:
            if op['op'] == 'call':
                tot += oracles[op['spec']]['lines']
            elif op['op'] == 'read':
                tot += 15
            tot += 1
    return max(10, tot * (6 if gran == 'instr' else 1))


class CallProp:
    ID = None
    CLASSES = None          # violation classes this property is about (None: all)

    def __init__(self):
        self.oracle = callsim.Oracle()

    def prepare(self):
        stack.bring_up()

    def observer_factory(self, sc):
        return None, None

    OBSERVE = False

    def run(self, sc, timeout=60.0, capture=False):
        rep = callsim.execute(sc, self.oracle, self.observer_factory if self.OBSERVE else None, timeout, capture)
        if self.CLASSES is not None:
            rep['viol'] = [v for v in rep['viol'] if v['class'] in self.CLASSES]
        rep['fp'] = _rng.digest([rep['trace'], [(s.get('uc'), s.get('alg'), s.get('eng')) for s in sc['specs']],
                                 sorted(rep['fired'].items())])
        rep['nontrivial'] = self.nontrivial(sc, rep)
        rep['digest'] = _rng.digest([rep['trace'], rep['fired_at'], rep['stats'], rep['points'],
                                     [(v['class'], v['where']) for v in rep['viol']]])
        rep['sample'] = self.sample(sc, rep)
        rep['probes'] = {('policy-' + sc['policy']): 1} if sc.get('policy') else {}
        rep['probes']['gran-' + sc.get('gran', 'line')] = 1
        return rep

    def nontrivial(self, sc, rep):
        return rep['switches'] > 0 or sum(rep['fired'].values()) > 0

    def sample(self, sc, rep):
        return {'tasks': [[(o['op'], o.get('spec', o.get('slot'))) for o in t][:6] for t in sc['tasks']],
                'spec0': {k: v for k, v in sc['specs'][0].items() if k in ('uc', 'alg', 'eng', 'refr')},
                'policy': sc.get('policy'), 'gran': sc.get('gran'), 'switches': rep['switches'],
                'fired': rep['fired_at'][:4]}

    # ---------------------------------------------------------------- shrink
    def shrink(self, sc):
        # fewer faults / nested calls
        for key in ('nests', 'faults'):
            if sc.get(key):
                for c in chunks_removed(sc[key]):
                    yield dict(sc, **{key: c})
        # no schedule at all, then fewer segments
        if sc.get('sched'):
            yield dict(sc, sched=[])
        if sc.get('gran') == 'instr':
            yield dict(sc, gran='line')
        # fewer operations
        for ti, t in enumerate(sc['tasks']):
            if not t:
                continue
            idx = list(range(len(t)))
            for keep in chunks_removed(idx):
                yield self._keep(sc, ti, keep)
        # fewer tasks
        if len(sc['tasks']) > 1:
            for ti, t in enumerate(sc['tasks']):
                if not t and not any(f['task'] == ti for f in sc.get('faults', [])):
                    yield self._drop_task(sc, ti)
        # unused specifications
        u = self._drop_unused(sc)
        if u is not None:
            yield u
        if sc.get('sched'):
            k = len(sc['sched'])
            n = 0
            for c in chunks_removed(sc['sched']):
                n += 1
                if n > 120:
                    break
                yield dict(sc, sched=c)
            if k <= 40:
                for i in range(k):
                    for v in (1, sc['sched'][i][1] // 2):
                        if 0 < v < sc['sched'][i][1]:
                            c = copy.deepcopy(sc['sched'])
                            c[i][1] = v
                            yield dict(sc, sched=c)
        # simpler specifications
        for i, s in enumerate(sc['specs']):
            for c in self.simpler_spec(s):
                ns = list(sc['specs'])
                ns[i] = c
                yield dict(sc, specs=ns)
        # the same simplification everywhere at once
        for f in (self._smaller_n, self._plain):
            ns = [f(s) for s in sc['specs']]
            if ns != sc['specs']:
                yield dict(sc, specs=ns)

    @staticmethod
    def _smaller_n(s):
        s = copy.deepcopy(s)
        t = s['t']
        if 'n' in t and t['n'] > 1 and s.get('uc') != 'transect':
            t['n'] = max(1, t['n'] // 2)
            t['nat'] = [i for i in t.get('nat', []) if i < t['n']]
        return s

    @staticmethod
    def _plain(s):
        s = copy.deepcopy(s)
        for k in ('tz', 'impl', 'sub', 'perm', 'nat'):
            s['t'].pop(k, None)
        return s

    @staticmethod
    def simpler_spec(s):
        t = s['t']
        for k in ('tz', 'sub', 'perm', 'nat', 'edit'):
            if k in t:
                c = copy.deepcopy(s)
                c['t'].pop(k)
                if k == 'tz':
                    c['t'].pop('impl', None)
                yield c
        if 'n' in t and t['n'] > 1 and s.get('uc') in ('sites', 'regular_grid'):
            for n in (1, 2, t['n'] // 2, t['n'] - 1):
                if 0 < n < t['n']:
                    c = copy.deepcopy(s)
                    c['t']['n'] = n
                    yield c
        for key in ('lat', 'lon'):
            if 'v' not in s[key] and s[key].get('n', 0) > 1 and s.get('uc') == 'regular_grid':
                c = copy.deepcopy(s)
                c[key]['n'] = max(1, c[key]['n'] // 2)
                yield c
        if s.get('uc') == 'sites' and 'v' in s['lat'] and 'v' in s['lon'] and len(s['lat']['v']) > 1 \
                and len(s['lat']['v']) == len(s['lon']['v']):
            c = copy.deepcopy(s)
            c['lat']['v'] = c['lat']['v'][:1]
            c['lon']['v'] = c['lon']['v'][:1]
            yield c

    def _keep(self, sc, ti, keep):
        m = {o: i for i, o in enumerate(keep)}
        out = dict(sc)
        out['tasks'] = list(sc['tasks'])
        out['tasks'][ti] = [sc['tasks'][ti][i] for i in keep]
        for key in ('faults', 'nests'):
            if sc.get(key):
                lst = []
                for f in sc[key]:
                    if f['task'] != ti:
                        lst.append(f)
                    elif f['op'] in m:
                        lst.append(dict(f, op=m[f['op']]))
                out[key] = lst
        return out

    def _drop_task(self, sc, ti):
        out = dict(sc)
        out['tasks'] = [t for i, t in enumerate(sc['tasks']) if i != ti]
        mp = lambda x: x if x < ti else x - 1    # noqa: E731
        out['sched'] = [[mp(a), n] for a, n in sc.get('sched', []) if a % len(sc['tasks']) != ti]
        for key in ('faults', 'nests'):
            if sc.get(key):
                out[key] = [dict(f, task=mp(f['task'])) for f in sc[key] if f['task'] != ti]
        return out

    def _drop_unused(self, sc):
        used = []

        def see(op):
            for k in ('spec', 'into'):
                if k in op and op[k] not in used:
                    used.append(op[k])
        for t in sc['tasks']:
            for op in t:
                see(op)
        for n in sc.get('nests', ()):
            for op in n['ops']:
                see(op)
        used.sort()
        if len(used) == len(sc['specs']) or not used:
            return None
        m = {o: i for i, o in enumerate(used)}
        c = json.loads(json.dumps(sc))
        c['specs'] = [c['specs'][i] for i in used]

        def fix(op):
            for k in ('spec', 'into'):
                if k in op:
                    op[k] = m[op[k]]
        for t in c['tasks']:
            for op in t:
                fix(op)
        for n in c.get('nests', ()):
            for op in n['ops']:
                fix(op)
        return c

    # ---------------------------------------------------------------- helpers
    fam_seed = None

    def fam_rng(self):
        return _rng.rng_of(*self.fam_seed)

    def resolve(self, sc):
        """Oracles for a scenario under construction (event counts are needed to place faults)."""
        return callsim.oracles_for(sc, self.oracle)


def read_pool(f, k=7, bad=0.0):
    """The derived quantities one family of runs reads (few, so their oracles are shared)."""
    out = [[f.choice(['zenith', 'azimuth', 'eot', 'ecf', 'declination', 'latitude', 'longitude'])]
           for _ in range(max(1, k // 4))]
    out += f.sample(specs.DERIVED, min(len(specs.DERIVED), k - len(out)))
    if bad and f.random() < bad:
        out.append(f.choice(specs.BAD_READS))
    return out


def pick_reads(r, k, pool):
    return [r.choice(pool) for _ in range(k)]
