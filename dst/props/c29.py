"""C29: nothing accumulates in a process that runs for ever."""
import gc
import os
import pickle
import random
import threading
import weakref

import pandas as pd

from .. import forkrun, growth, interrupt, jplsim, rng as _rng, specs
from ..minimize import chunks_removed
from . import base, jplbase
from .c16 import gen_stall

EARLY = 48


class Prop(jplbase.JplProp):
    ID = 'C29'
    fam_seed = None
    fam_rng = base.CallProp.fam_rng

    def warm(self):
        # nothing of the simulator itself may grow
        for d in range(19700, 20200):
            jplsim.day_str(d)
        # code warms up, small caches fill: once for all runs
        r = random.Random(1)
        kinds = {}
        for uc in specs.USECASES:
            for alg in specs.ALGS:
                for die in (0, 0, 0, 60):
                    s = drift(r, specs.gen_spec(r, 'tiny', uc, alg))

                    def body():
                        sw = specs.invoke(s)
                        for a in specs.DERIVED + specs.BAD_READS:
                            try:
                                specs.read(sw, a)
                            except ValueError:
                                pass
                    self.settle(body, die, r, kinds, kinds)

    # ------------------------------------------------------------ generation
    def gen(self, r, i, tier):
        if r.random() < .3:
            return self.gen_ephemeris(r)
        fam = specs.util_family(r, 2) if r.random() < .15 else specs.gen_family(r, r.choice([1, 1, 2, 3]), 'tiny', bad=.25)
        cyc = []
        for k in range(len(fam)):
            op = {'op': 'call', 'spec': k, 'reads': []}
            if fam[k].get('fn') != 'util':
                op['reads'] = r.sample(specs.DERIVED + specs.BAD_READS, r.choice([0, 1, 3]))
                if r.random() < .1:
                    op['send'] = True
            if r.random() < .2:
                op['thread'] = True
            if r.random() < .35:
                op['die'] = r.choice([10, 40, 150])
            cyc.append(op)
        if r.random() < .4:
            op = {'op': 'held', 'reads': r.sample(specs.DERIVED + specs.BAD_READS, r.choice([2, 5]))}
            if r.random() < .4:
                op['die'] = r.choice([3, 10, 40])
            cyc.append(op)
        return {'kind': 'calls', 'specs': fam, 'held': specs.gen_spec(r, 'tiny'), 'cycle': cyc, 'seed': r.randrange(10**9)}

    def gen_ephemeris(self, r):
        cyc = []
        for _ in range(r.choice([1, 2])):
            if r.random() < .65:
                net = jplbase.gen_net(r, 0, True)
                if net['seg'] < 1000:
                    net['seg'] = 8192
                net['faults'] = [r.choice([gen_stall, jplbase.gen_net_fault, lambda r: {}])(r) for _ in range(r.choice([0, 1, 1, 2, 4]))]
                if r.random() < .3:
                    net['tail'] = r.choice([gen_stall, jplbase.gen_net_fault])(r)
                op = {'op': 'download', 'n': r.choice([2, 10, 60]), 'step': r.choice([1, 12]), 'net': net,
                      'where': r.choice(['o/x.txt', 'a/x.txt', 'file/x.txt', 'x.txt'])}
                if r.random() < .3:
                    op['disk'] = jplbase.gen_disk(r, 8)
                    op['disk']['faults'] = [f for f in op['disk']['faults'] if f['kind'] in ('err', 'short')]
                    op['disk'].pop('power', None)
            else:
                op = {'op': 'table', 'n': r.choice([2, 10, 60]), 'cut': r.choice([None, None, 500, 990, 0, -1])}
            if r.random() < .3:
                op['die'] = r.choice([5, 20, 100])
            cyc.append(op)
        return {'kind': 'ephemeris', 'cycle': cyc, 'seed': r.randrange(10**9), 'site': list(jplbase.site(r))}

    # ------------------------------------------------------------ execution
    def run(self, sc, timeout=60., capture=False):
        d = self.scratch()
        try:
            rep = forkrun.run(lambda: getattr(self, 'do_' + sc['kind'])(sc, d), timeout)
        finally:
            self.drop(d)
        rep['fired_at'] = []
        early = rep.pop('early')
        rep.update(points=rep['stats']['rounds'] * len(sc['cycle']), sample={'kind': sc['kind'], 'cycle': [dict(o, net=0) if 'net' in o else o for o in sc['cycle']][:2],
                   'rounds': rep['stats']['rounds']}, nontrivial=True)
        rep = self.finish(rep, sc, [sc['kind'], early, [(s.get('uc'), s.get('alg'), s.get('eng')) for s in sc.get('specs', ())]])
        # how long it takes to come to rest depends on the allocator
        rep['digest'] = _rng.digest([early, [(v['class'], v['where']) for v in rep['viol']]])
        return rep

    @staticmethod
    def settle(fn, die, r, kinds, fired, early=None):
        """fn(), possibly interrupted; nothing of it is kept."""
        d = interrupt.Die(1 + int(r.expovariate(1 / die))) if die and r.random() < .6 else None
        how = 'ok'
        try:
            if d:
                with d:
                    fn()
            else:
                fn()
        except interrupt.WorkerDied:
            how = 'interrupt'
        except (Exception, jplsim.SimHang, KeyboardInterrupt) as e:
            how = type(e).__name__
        kinds[how] = kinds.get(how, 0) + 1
        if early is not None and len(early) < EARLY:
            early.append(how)
        if how == 'interrupt':
            fired[how] = fired.get(how, 0) + 1

    def verdict(self, grows, n, kinds, fired, early, what):
        viol = []
        if grows:
            viol.append({'class': 'accumulates', 'where': what,
                         'detail': 'after %d rounds every further round leaves behind ' % n + ', '.join(f'{v:.2f} {k}' for k, v in sorted(grows.items()))})
        return {'viol': viol, 'fired': fired, 'early': early, 'stats': {'rounds': n, 'operations': sum(kinds.values())}}

    def do_calls(self, sc, d):
        held = specs.invoke(sc['held'])
        kinds, fired, early = {}, {}, []

        def turn(k):
            for j, op in enumerate(sc['cycle']):
                r = random.Random((sc['seed'] * 1000003 + k) * 31 + j)
                if op['op'] == 'held':
                    def body():
                        for a in op['reads']:
                            try:
                                specs.read(held, a)
                            except ValueError:
                                pass
                else:
                    sp = drift(r, sc['specs'][op['spec']])
                    args = specs.make_args(sp)

                    def body():
                        sw = specs.invoke(sp, args)
                        if op.get('send'):
                            sw = pickle.loads(pickle.dumps(sw))
                        for a in op['reads']:
                            try:
                                specs.read(sw, a)
                            except ValueError:
                                pass
                if op.get('thread'):
                    t = threading.Thread(target=self.settle, args=(body, op.get('die'), r, kinds, fired, early))
                    t.start()
                    t.join()
                else:
                    self.settle(body, op.get('die'), r, kinds, fired, early)
        grows, n, hist = growth.watch(turn, 12, 24, max(700, 2400 // len(sc['cycle'])), [d])
        if os.environ.get('DST_GROWTH'):
            print(sc['kind'], n, hist, file=open(os.environ['DST_GROWTH'], 'a'))
        return self.verdict(grows, n, kinds, fired, early, 'calls and reads')

    def do_ephemeris(self, sc, d):
        from sunwhere.utils import jpl_horizons as jpl
        root = os.path.join(d, 'w')
        side = os.path.join(d, 'side')
        os.chdir(root)
        os.mkdir('file')
        kinds, fired, early = {}, {}, []
        disk = jplsim.Disk()
        sockets = weakref.WeakSet()
        lost = []
        real = jplsim.FakeSocket.__init__

        def born(self_, *a, **k):
            real(self_, *a, **k)
            sockets.add(self_)
        jplsim.FakeSocket.__init__ = born
        jplsim.install(jplsim.Net({}, None))

        def turn(k):
            for j, op in enumerate(sc['cycle']):
                r = random.Random((sc['seed'] * 1000003 + k) * 31 + j)
                m0 = 28401120 + 12 * r.randrange(40000)
                if op['op'] == 'download':
                    net = jplsim.Net(op['net'], None)
                    jplsim.install(net)
                    t0 = pd.Timestamp(m0 * 60, unit='s')
                    t1 = t0 + pd.Timedelta(minutes=(op['n'] - 1) * op['step'])
                    lon, lat = round(sc['site'][0] * r.random(), 4), round(sc['site'][1] * r.random(), 4)
                    disk.arm(root, op.get('disk'))
                    self.settle(lambda: jpl.get_jpl_ephemeris(op['where'], t0, t1, lon, lat, step_size=op['step']), op.get('die'), r, kinds, fired, early)
                    disk.off()
                    for x in net.fired:
                        fired[x] = fired.get(x, 0) + net.fired[x]
                    jplsim.install(jplsim.Net({}, None))
                    del net
                else:
                    lines = jplsim.data_lines((*sc['site'], 0.), jplsim.minutes_of(m0, m0 + 12 * op['n'] - 1, 12))
                    text = (jplsim.TAIL + '$$SOE\n' + '\n'.join(lines) + '\n$$EOE\n' + jplsim.TAIL).encode()
                    if op['cut'] is not None:
                        text = text[:len(text) * op['cut'] // 1000] if op['cut'] >= 0 else b''
                    p = os.path.join(side, 't.txt')
                    if op['cut'] == -1:
                        if os.path.exists(p):
                            os.unlink(p)
                    else:
                        with jplsim.REAL_OPEN(p, 'wb') as f:
                            f.write(text)
                    self.settle(lambda: jpl.read_jpl_ephemeris_file(p), op.get('die'), r, kinds, fired, early)
            if not lost:
                if any(not s.closed for s in list(sockets)):
                    gc.collect()
                    n = sum(not s.closed for s in list(sockets))
                    if n:
                        lost.append(f'{n} connections were still open after round {k}')
        grows, n, hist = growth.watch(turn, 8, 16, 1500 // len(sc['cycle']), [d])
        if os.environ.get('DST_GROWTH'):
            print(sc['kind'], n, hist, file=open(os.environ['DST_GROWTH'], 'a'))
        rep = self.verdict(grows, n, kinds, fired, early, 'downloads and tables')
        if lost:
            rep['viol'].append({'class': 'left-open', 'where': 'downloads', 'detail': lost[0]})
        return rep

    # ------------------------------------------------------------ shrink
    def shrink(self, sc):
        for c in chunks_removed(sc['cycle'], 1):
            yield dict(sc, cycle=c)
        for k, o in enumerate(sc['cycle']):
            for key in ('die', 'thread', 'send', 'disk'):
                if key in o:
                    yield dict(sc, cycle=sc['cycle'][:k] + [{a: b for a, b in o.items() if a != key}] + sc['cycle'][k + 1:])
            if o.get('reads'):
                for c in chunks_removed(o['reads']):
                    yield dict(sc, cycle=sc['cycle'][:k] + [dict(o, reads=c)] + sc['cycle'][k + 1:])
            if 'net' in o:
                for q in jplbase.simpler_plan({'net': o['net']}):
                    yield dict(sc, cycle=sc['cycle'][:k] + [dict(o, net=q['net'])] + sc['cycle'][k + 1:])
        for k, s in enumerate(sc.get('specs', ())):
            for c in base.CallProp.simpler_spec(s):
                yield dict(sc, specs=sc['specs'][:k] + [c] + sc['specs'][k + 1:])


def drift(r, s):
    """The same kind of call with other values and another size."""
    s = dict(s, t=dict(s['t']), lat=dict(s['lat']), lon=dict(s['lon']))
    t = s['t']
    if 's' in t and t.get('form') != 'badstr':
        t['s'] = specs.Y2000 + r.randrange(0, 50 * 365 * 86400)
        t.pop('edit', None)
        if not t['form'].startswith('scalar') and s.get('uc') != 'transect':
            t['n'] = r.randrange(1, 9)
            t['nat'] = [i for i in t.get('nat', ()) if i < t['n'] - 1]
    if not s.get('bad'):
        for k, lo, hi in (('lat', -90, 90), ('lon', -180, 179)):
            c = s[k]
            if 'v' in c:
                c['v'] = [r.uniform(lo, hi) for _ in c['v']]
            else:
                c['seed'] = r.randrange(10**6)
            c.pop('edit', None)
    return s
