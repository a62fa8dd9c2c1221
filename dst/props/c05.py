"""C05: reads of one shared result are repeatable in any order and interleaving."""
from .. import callsim, specs
from . import base


class Prop(base.CallProp):
    ID = 'C05'
    CLASSES = {'wrong-read', 'result-changed', 'value-changed', 'interrupt-lost', 'deadlock', 'hang', 'cannot-be-read'}

    def __init__(self):
        self.oracle = callsim.Oracle(isolate_reads=True)

    def gen(self, r, i, tier):
        f = self.fam_rng()
        fam = [specs.gen_spec(f, f.choice(['tiny', 'small', 'small', 'medium']))]
        two = f.random() < .4
        if two:
            fam.append(specs.variant(f, fam[0]))
        pool = f.sample(specs.DERIVED, f.randint(4, 9)) + [[x] for x in f.sample(specs.RAW, 3)]
        if f.random() < .4:
            # options of one quantity side by side
            nm = f.choice(['sunrise', 'sunset', 'eth', 'airmass', 'incidence'])
            pool = [a for a in specs.DERIVED if a[0] == nm] + f.sample(specs.DERIVED, 3)
            if nm == 'incidence':
                pool.append(['incidence', {'sfc_slope': 30., 'sfc_azimuth': 90.}])
                pool.append(['incidence', {'sfc_slope': 0., 'sfc_azimuth': 0.}])
                # the same surface, nearly
                a, b = f.choice([0., 12., 30., 45., 90.]), f.choice([-180., -60., 0., 25., 180.])
                e = f.choice([.2, .4, 1e-3, 1e-6, 1., 360.])
                pool += [['incidence', {'sfc_slope': x, 'sfc_azimuth': y}] for x, y in ((a, b), (a + e, b), (a, b + e), (b, a))]
            if nm == 'eth':
                pool.append(['eth', {'ISC': 1361.0}])
                pool.append(['eth', {'ISC': 1361.1 + f.choice([.3, 1e-4, -1361.1])}])
        if f.random() < .4:
            pool += f.sample(specs.BAD_READS, 2)
        nt = r.choices([1, 2, 3], [3, 4, 2])[0]
        gran = 'instr' if (nt > 1 and r.random() < .3) else 'line'
        setup = [{'op': 'call', 'spec': k, 'slot': k} for k in range(len(fam))]
        tasks = []
        for t in range(nt):
            ops = list(setup) if t == 0 else []
            for _ in range(r.randint(4, 14)):
                ops.append({'op': 'read', 'slot': r.randrange(len(fam)), 'acc': r.choice(pool)})
            tasks.append(ops)
        sc = {'specs': fam, 'tasks': tasks, 'gran': gran, 'faults': [], 'nests': [], 'shared': len(fam)}
        orc = self.resolve(sc)
        pts = base.estimate_points(sc, orc, gran)
        sched, sc['policy'] = base.gen_schedule(r, nt, pts, gran)
        # the first task makes the shared result before anyone reads it
        pre = sum(orc[k]['lines'] for k in range(len(fam))) * (7 if gran == 'instr' else 1) + len(fam) + 5
        sc['sched'] = ([[0, pre]] + sched) if nt > 1 else []
        if r.random() < .35:
            for _ in range(r.choice([1, 1, 2])):
                ti = r.randrange(nt)
                cand = [j for j, o in enumerate(tasks[ti]) if o['op'] == 'read'
                        and not any(g['task'] == ti and g['op'] == j for g in sc['faults'])]
                if not cand:
                    continue
                j = r.choice(cand)
                a = tasks[ti][j]['acc']
                k = __import__('json').dumps(a)
                ln = max(1, orc[tasks[ti][j]['slot']]['acc_lines'].get(k, 6))
                site = r.choice(['line', 'call'])
                sc['faults'].append({'task': ti, 'op': j, 'n': 1 + r.randrange(ln if site == 'line' else 2 * ln),
                                     'site': site, 'kind': r.choice(callsim.FAULTS)})
        return sc

    def nontrivial(self, sc, rep):
        return rep['stats']['reads'] >= 3
