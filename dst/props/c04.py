"""C04: results and arguments are isolated values."""
from .. import specs
from . import base

HOW = ['scale', 'add', 'one', 'fill', 'fill', 'coords', 'coords', 'attrs', 'name', 'recoord']


class Prop(base.CallProp):
    ID = 'C04'
    CLASSES = {'wrong-answer', 'wrong-read', 'result-changed', 'value-changed', 'argument-modified', 'hang', 'deadlock'}

    def gen(self, r, i, tier):
        f = self.fam_rng()
        size = f.choices(['tiny', 'small', 'medium'], [4, 6, 1])[0]
        fam = specs.gen_family(f, f.randint(2, 3), size, focus=f.random() < .8, utils=.05)
        if f.random() < .08:
            fam = specs.util_family(f, 3)
        pool = base.read_pool(f, 10)
        raw = [[x] for x in specs.RAW if x not in ('algorithm', 'engine', 'has_refraction', 'usecase', 'timezone')]
        pool += f.sample(raw, 5)
        nt = r.choices([1, 2], [7, 3])[0]
        tasks, slot = [], 0
        keep = 0
        for t in range(nt):
            ops, mine, called = [], [], []
            for _ in range(r.randint(5, 12)):
                x = r.random()
                if not mine or x < .22:
                    # tasks own disjoint specifications: their argument objects are not shared
                    own = [k for k in range(len(fam)) if k % nt == t] or [0]
                    sp = r.choice(own) if nt > 1 else r.randrange(len(fam))
                    if nt > 1 and sp % nt != t:
                        continue
                    ops.append({'op': 'call', 'spec': sp, 'slot': slot, 'fresh': r.random() < .3})
                    if fam[sp].get('fn') == 'util' and r.random() < .5:
                        ops[-1].update(scribble=r.choice(['fill', 'add', 'one']), val=60.)
                    mine.append(slot)
                    called.append(sp)
                    slot += 1
                elif x < .55:
                    ops.append({'op': 'read', 'slot': r.choice(mine), 'acc': r.choice(pool),
                                'scribble': r.choice(HOW), 'val': r.choice([60., 0., -3., 1e6])})
                elif x < .7:
                    ops.append({'op': 'read', 'slot': r.choice(mine), 'acc': r.choice(pool), 'keep': keep})
                    keep += 1
                elif x < .8:
                    ops.append({'op': 'read', 'slot': r.choice(mine), 'acc': r.choice(pool)})
                elif x < .9 and called:
                    ops.append({'op': 'writeargs', 'spec': r.choice(called), 'how': 'fill', 'val': r.choice([12., 0., 55.])})
                elif x < .95:
                    ops.append({'op': 'checkargs'})
                else:
                    ops.append({'op': 'check', 'slot': r.choice(mine)})
            if mine:
                # after all the writes every stored and derived quantity must read as before
                for a in r.sample(pool, min(4, len(pool))):
                    ops.append({'op': 'read', 'slot': r.choice(mine), 'acc': a})
            tasks.append(ops)
        sc = {'specs': fam, 'tasks': tasks, 'gran': 'line', 'faults': [], 'nests': []}
        orc = self.resolve(sc)
        sc['sched'], sc['policy'] = base.gen_schedule(r, nt, base.estimate_points(sc, orc, 'line'), 'line')
        return sc

    def nontrivial(self, sc, rep):
        return rep['stats']['writes'] > 0

    def run(self, sc, timeout=60.0, capture=False):
        rep = super().run(sc, timeout, capture)
        from .. import rng
        rep['fp'] = rng.digest([rep['trace'], [[(o['op'], o.get('scribble'), o.get('acc')) for o in t] for t in sc['tasks']]])
        return rep
