"""C03: failed or interrupted calls surface, leave no trace and can be retried."""
from .. import callsim, specs
from . import base


class Prop(base.CallProp):
    ID = 'C03'
    CLASSES = {'wrong-answer', 'wrong-read', 'result-changed', 'value-changed', 'interrupt-lost', 'deadlock', 'hang',
               'argument-modified'}

    def gen(self, r, i, tier):
        f = self.fam_rng()
        if f.random() < .35:
            return self.gen_sweep(f, r)
        size = f.choices(['tiny', 'small', 'medium'], [3, 6, 1])[0]
        fam = specs.gen_family(f, f.randint(2, 4), size, bad=.04, utils=.04)
        if f.random() < .05:
            fam = specs.util_family(f, 3)
        elif f.random() < .35:
            fam = fam[:1]
            while len(fam) < 3:
                fam.append(specs.variant(f, fam[0], f.choice(['interior', 'shifthour', 'lat', 'both', 'refr', 'eng'])))
        pool = base.read_pool(f, 6)
        nt = r.choices([1, 2], [7, 3])[0]
        tasks, slot = [], 0
        for t in range(nt):
            ops = []
            for _ in range(r.choice([2, 3, 4])):
                sp = r.randrange(len(fam))
                ops.append({'op': 'call', 'spec': sp, 'slot': slot, 'fresh': r.random() < .4})
                for a in base.pick_reads(r, r.choice([0, 0, 1, 2]), pool):
                    ops.append({'op': 'read', 'slot': slot, 'acc': a})
                    if r.random() < .3:
                        ops.append({'op': 'read', 'slot': slot, 'acc': a})
                slot += 1
            tasks.append(ops)
        # afterwards everything must still work, on every family member
        tail = [{'op': 'call', 'spec': k, 'slot': slot + k, 'fresh': True} for k in range(len(fam))]
        if nt == 1:
            r.shuffle(tail)
            tasks[0] += tail[:2]
        sc = {'specs': fam, 'tasks': tasks, 'gran': 'line', 'faults': [], 'nests': []}
        orc = self.resolve(sc)
        if f.random() < .25:
            kinds = ['KeyboardInterrupt', 'MemoryError', 'RuntimeError']
        else:
            kinds = callsim.FAULTS
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            ti = r.randrange(nt)
            cand = [j for j, o in enumerate(tasks[ti]) if o['op'] in ('call', 'read')
                    and not any(g['task'] == ti and g['op'] == j for g in sc['faults'])]
            calls = [j for j in cand if tasks[ti][j]['op'] == 'call']
            if not cand:
                continue
            j = r.choice(calls if calls and r.random() < .75 else cand)
            o = tasks[ti][j]
            site = r.choice(['line', 'line', 'call'])
            if o['op'] == 'call':
                tot = orc[o['spec']]['lines' if site == 'line' else 'calls']
            else:
                tot = 14
            n = 1 + r.randrange(max(1, tot))
            if r.random() < .3:         # bias towards the end, when results are being assembled
                n = max(1, tot - r.randrange(max(1, tot // 3)))
            sc['faults'].append({'task': ti, 'op': j, 'n': n, 'site': site, 'kind': r.choice(kinds)})
        sc['sched'], sc['policy'] = base.gen_schedule(r, nt, base.estimate_points(sc, orc, 'line'), 'line')
        return sc

    def gen_sweep(self, f, r):
        """One failure after another, at points spread over the whole call, each followed by its retry:
        what a failed call half-prepared for later is met by the very next one."""
        fam = [specs.gen_spec(f, 'tiny' if f.random() < .8 else 'small')]
        if f.random() < .1:
            fam = specs.util_family(f, 1)
        k = 8
        while len(fam) < k:
            if fam[0].get('fn') == 'util':
                s = dict(fam[0], t=dict(fam[0]['t']))
                s['t']['s'] += len(fam) * 86400 * 11
            else:
                s = specs.variant(f, fam[0], f.choice(['shiftday', 'shifthour', 'allvals', 'lat', 'shiftyear', 'both']))
            fam.append(s)
        order = list(range(k))
        r.shuffle(order)
        ops, slot = [], 0
        for sp in order:
            retry = {'op': 'call', 'spec': sp, 'slot': slot + 1, 'fresh': r.random() < .6}
            ops += [{'op': 'call', 'spec': sp, 'slot': slot, 'fresh': r.random() < .6}, retry]
            slot += 2
        sc = {'specs': fam, 'tasks': [ops], 'gran': 'line', 'faults': [], 'nests': [], 'sched': [], 'policy': 'sweep'}
        orc = self.resolve(sc)
        kinds = callsim.FAULTS if f.random() < .7 else ['KeyboardInterrupt', 'MemoryError', 'RuntimeError']
        lo = r.random()
        for j, sp in enumerate(order):
            site = r.choice(['line', 'line', 'line', 'call'])
            tot = orc[sp]['lines' if site == 'line' else 'calls']
            n = 1 + int(((lo + j / k) % 1.) * max(1, tot))
            sc['faults'].append({'task': 0, 'op': 2 * j, 'n': n, 'site': site, 'kind': r.choice(kinds)})
        return sc

    def nontrivial(self, sc, rep):
        return sum(rep['fired'].values()) > 0

    def run(self, sc, timeout=60.0, capture=False):
        rep = super().run(sc, timeout, capture)
        from .. import rng
        rep['fp'] = rng.digest([rep['fired_at'], rep['trace'], [(s.get('uc'), s.get('alg'), s.get('eng')) for s in sc['specs']]])
        return rep
