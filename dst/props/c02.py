"""C02: an answer never depends on the calls made before it."""
from .. import callsim, specs
from . import base


class Prop(base.CallProp):
    ID = 'C02'
    CLASSES = {'wrong-answer', 'wrong-read', 'result-changed', 'value-changed', 'hang', 'argument-modified', 'valid-call-fails'}

    def gen(self, r, i, tier):
        f = self.fam_rng()
        mode = f.choices(['family', 'mix', 'long', 'big', 'alias', 'util'], [5, 2, 1.2, .8, 3.6, .9])[0]
        if mode == 'long':
            # many distinct small calls: bounded caches fill up and evict
            fam = [specs.gen_spec(f, 'tiny')]
            k = f.choice([24, 40, 70, 140])
            while len(fam) < min(k, 30):
                fam.append(specs.variant(f, f.choice(fam[:6]), f.choice(
                    ['shift1', 'shifthour', 'shiftday', 'shiftyear', 'lat', 'lon', 'refr', 'eng'])))
            n_ops = k
        elif mode == 'big':
            fam = [specs.gen_spec(f, f.choice(['medium', 'large']))]
            while len(fam) < 4:
                fam.append(specs.variant(f, f.choice(fam), f.choice(['interior', 'mid', 'lat', 'both', 'perm', 'revt'])))
            n_ops = 10
        elif mode == 'mix':
            fam = specs.gen_family(f, 8, 'small', focus=False, bad=.15, utils=.1)
            n_ops = 18
        elif mode == 'util':
            fam = specs.util_family(f, 8)
            n_ops = 20
        else:
            fam = specs.gen_family(f, 8, 'small' if mode == 'alias' else f.choice(['tiny', 'small', 'small']), focus=True, bad=.12, utils=.08)
            n_ops = 20
        pool = base.read_pool(f, 6, bad=.3)
        ops, slot = [], 0
        made = []
        n_ops = max(4, int(n_ops * r.uniform(.5, 1.2)))
        for _ in range(n_ops):
            x = r.random()
            sp = r.randrange(len(fam))
            if mode == 'alias' and made and x < .45 and fam[sp].get('fn') != 'util':
                # write another call's values into argument objects used before, and pass them again
                src = r.choice(made)
                ops.append({'op': 'call', 'spec': sp, 'slot': slot, 'into': src})
            elif x < .6:
                ops.append({'op': 'call', 'spec': sp, 'slot': slot, 'fresh': r.random() < .5})
            elif x < .75 and made:
                # recycle: drop argument objects and results first, so new ones may get their addresses
                ops.append({'op': 'dropargs', 'spec': r.choice(made)})
                ops.append({'op': 'drop', 'slot': r.randrange(max(1, slot)), 'gc': r.random() < .2})
                ops.append({'op': 'call', 'spec': sp, 'slot': slot, 'fresh': True})
            else:
                ops.append({'op': 'call', 'spec': sp, 'slot': slot, 'fresh': True})
            made.append(sp)
            if r.random() < .35 and mode != 'long':
                for a in base.pick_reads(r, r.choice([1, 1, 2]), pool):
                    ops.append({'op': 'read', 'slot': slot, 'acc': a})
            if r.random() < .1 and slot:
                ops.append({'op': 'check', 'slot': r.randrange(slot + 1)})
            slot += 1
        return {'specs': fam, 'tasks': [ops], 'gran': 'op', 'faults': [], 'nests': [], 'sched': [], 'policy': mode}

    def nontrivial(self, sc, rep):
        return rep['stats']['calls'] >= 3

    def run(self, sc, timeout=60.0, capture=False):
        rep = super().run(sc, timeout, capture)
        rep['fp'] = callsim_fp(sc)
        probes = rep['probes']
        for k in ('into', 'fresh'):
            probes['arg-' + k] = sum(1 for o in sc['tasks'][0] if o.get(k) is not None and o.get(k) is not False)
        probes['failing-calls'] = sum(1 for o in sc['tasks'][0] if o['op'] == 'call' and bad(sc['specs'][o['spec']]))
        return rep


def bad(s):
    return s.get('alg') == 'nope' or s.get('eng') == 'nope' or (s.get('alg') == 'nrel' and s.get('eng') == 'numpy') \
        or s['lat'].get('form') == 'dim2' or s['t'].get('form') == 'badstr' or 91.0 in s['lat'].get('v', [])


def callsim_fp(sc):
    from .. import rng
    return rng.digest([[(o['op'], o.get('spec'), o.get('into')) for o in sc['tasks'][0]],
                       [(s.get('uc'), s.get('alg'), s.get('eng'), str(s['t']), str(s['lat'])) for s in sc['specs']]])
