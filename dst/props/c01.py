"""C01: overlapping and nested calls are isolated from one another."""
from .. import specs
from . import base


class Prop(base.CallProp):
    ID = 'C01'
    CLASSES = {'wrong-answer', 'wrong-read', 'result-changed', 'value-changed', 'deadlock', 'hang',
               'argument-modified'}

    def gen(self, r, i, tier):
        gran = 'instr' if r.random() < .25 else 'line'
        nt = r.choice([2, 2, 2, 2, 3, 3, 4])
        f = self.fam_rng()
        if f.random() < .25:
            return self.gen_duel(f, r)
        size = f.choices(['tiny', 'small', 'medium', 'large'], [3, 6, 2, .3])[0]
        fam = specs.gen_family(f, f.randint(3, 5), size, bad=.06, utils=.04)
        if f.random() < .05:
            fam = specs.util_family(f, 3)
        elif f.random() < .35:
            # same argument shapes, different values: shared buffers and memo keys collide
            fam = fam[:1]
            while len(fam) < 4:
                fam.append(specs.variant(f, fam[0], f.choice(['interior', 'shifthour', 'lat', 'lon', 'both', 'perm',
                                                             'allvals', 'refr', 'eng', 'alg'])))
        pool = base.read_pool(f)
        tasks, slot = [], 0
        for t in range(nt):
            ops = []
            for _ in range(r.choice([1, 1, 2, 3])):
                sp = r.randrange(len(fam))
                ops.append({'op': 'call', 'spec': sp, 'slot': slot, 'fresh': r.random() < .5})
                for a in base.pick_reads(r, r.choice([0, 0, 1, 2, 3]), pool):
                    ops.append({'op': 'read', 'slot': slot, 'acc': a})
                if r.random() < .2 and slot:
                    ops.append({'op': 'check', 'slot': slot})
                slot += 1
            tasks.append(ops)
        sc = {'specs': fam, 'tasks': tasks, 'gran': gran, 'faults': [], 'nests': []}
        orc = self.resolve(sc)
        if r.random() < .3:
            for _ in range(r.choice([1, 1, 2])):
                ti = r.randrange(nt)
                cand = [j for j, o in enumerate(tasks[ti]) if o['op'] in ('call', 'read')]
                j = r.choice(cand)
                o = tasks[ti][j]
                if o['op'] == 'call':
                    n = 1 + r.randrange(max(1, orc[o['spec']]['lines'])) * (6 if gran == 'instr' else 1)
                else:
                    n = 1 + r.randrange(6)
                nops = [{'op': 'call', 'spec': r.randrange(len(fam)), 'slot': slot, 'fresh': True}]
                if r.random() < .4:
                    nops.append({'op': 'read', 'slot': slot, 'acc': r.choice(pool)})
                slot += 1
                sc['nests'].append({'task': ti, 'op': j, 'n': n, 'ops': nops})
        sc['sched'], sc['policy'] = base.gen_schedule(r, nt, base.estimate_points(sc, orc, gran), gran)
        return sc

    def gen_duel(self, f, r):
        """The same kind of call on every thread, with other values, almost in step: what the calls share is
        overwritten between any two lines of another one."""
        base_ = specs.gen_spec(f, f.choices(['tiny', 'small', 'medium'], [5, 5, 1])[0])
        fam = [base_]
        if f.random() < .08:
            fam = specs.util_family(f, 1)
        while len(fam) < 4:
            if fam[0].get('fn') == 'util':
                fam.append(dict(fam[0], t=dict(fam[0]['t'], s=fam[0]['t']['s'] + len(fam) * 86400 * 37)))
                continue
            s = specs.variant(f, base_, f.choice(['allvals', 'allvals', 'shiftyear', 'shiftday', 'both']))
            if f.random() < .2:
                s = specs.variant(f, s, f.choice(['refr', 'tz', 'form']))
            fam.append(s)
        nt = r.choice([2, 2, 3])
        tasks, slot = [], 0
        k0 = r.randrange(4)
        for t in range(nt):
            ops = []
            for j in range(r.choice([1, 2, 3])):
                ops.append({'op': 'call', 'spec': (k0 + t + j) % 4, 'slot': slot, 'fresh': r.random() < .7})
                slot += 1
            tasks.append(ops)
        gran = 'instr' if r.random() < .15 else 'line'
        sc = {'specs': fam, 'tasks': tasks, 'gran': gran, 'faults': [], 'nests': []}
        pts = base.estimate_points(sc, self.resolve(sc), gran)
        scale = 6 if gran == 'instr' else 1
        order = list(range(nt))
        r.shuffle(order)
        sched = []
        off = r.choice([0, 0, 1, 1, 2, 3, 5])
        if off:
            sched.append([order[0], off * scale])
        k = r.choice([1, 1, 1, 2, 3])
        # in step, but for now and then a slip of a few points
        while sum(x[1] for x in sched) < pts and len(sched) < 3000:
            for o in order:
                sched.append([o, k + (r.randrange(4) if r.random() < .04 else 0)])
        sc['sched'], sc['policy'] = sched, 'duel'
        return sc
