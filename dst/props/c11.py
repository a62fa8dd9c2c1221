"""C11: an ephemeris download is all-or-nothing."""
import os

from .. import jplsim
from . import jplbase


class Prop(jplbase.JplProp):
    ID = 'C11'

    def warm(self):
        d = self.scratch()
        try:
            r = jplsim.attempt(self.call({'start': 28401120, 'n': 30, 'step': 1, 'site': [2.5, 41.25, 0.], 'out': 'o/x.txt'}),
                               {'disk': {}, 'die': 10**9}, os.path.join(d, 'w'))
            # if even this fails, the runs will tell
            self.wops, self.nlines = max(8, r['disk']['wops']), max(60, r['lines'])
        finally:
            self.drop(d)

    @staticmethod
    def call(q):
        import pandas as pd
        from sunwhere.utils.jpl_horizons import get_jpl_ephemeris
        a = pd.Timestamp(q['start'] * 60, unit='s')
        b = a + pd.Timedelta(minutes=(q['n'] - 1) * q['step'])
        return lambda: str(get_jpl_ephemeris(q['out'], a, b, q['site'][0], q['site'][1], site_elev=q['site'][2],
                                             step_size=q['step']))

    def gen(self, r, i, tier):
        lon, lat = jplbase.site(r)
        n = r.choice([2, 3, 10, 60, r.randrange(2, 300), r.randrange(2, 3000)])
        sc = {'start': 28401120 + 12 * r.randrange(40000), 'n': n, 'step': r.choice([1, 1, 12, 60, 7]),
              'site': [lon, lat, r.choice([0., .25, 3.1, 0])], 'out': r.choice(['x.txt', 'o/x.txt', 'a/b/c.txt', './x', '@/abs.txt'])}
        sc['prior'] = r.choice([None, None, 'text', 'old', 'partial', 'empty'])
        plans = []
        for _ in range(r.choice([1, 1, 2])):
            p = {'net': jplbase.gen_net(r, 0, n < 400)}
            k = r.random()
            if k < .5:
                nf = r.choice([1, 1, 1, 2, 3])
                p['net']['faults'] = [jplbase.gen_net_fault(r) for _ in range(nf)]
                if r.random() < .4:
                    p['net']['tail'] = p['net']['faults'][-1]
            if k > .45:
                if r.random() < .75:
                    p['disk'] = jplbase.gen_disk(r, self.wops + (n > 100))
                else:
                    p['die'] = 1 + r.randrange(self.nlines + 5)
            if r.random() < .25:
                p['loss'] = r.choice([0, 0, 500, 999, r.randrange(1000)])
            plans.append(p)
        sc['plans'] = plans
        return sc

    def run(self, sc, timeout=60., capture=False):
        d = self.scratch()
        try:
            return self._run(sc, d, timeout)
        finally:
            self.drop(d)

    def _run(self, sc, d, timeout):
        root = os.path.join(d, 'w')
        out = sc['out'].replace('@', root)
        path = os.path.join(root, out)
        if sc.get('prior'):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as f:
                f.write({'text': b'something else\n' * 40, 'empty': b'', 'partial': b'header\n$$SOE\n 2024-Jan-01 00:00:00 24',
                         'old': b'header\n$$SOE\n$$EOE\n' * 300}[sc['prior']])
        viol, fired, hist, simt = [], {}, [], 0.
        for k, plan in enumerate(sc['plans']):
            before = self.content(path)
            side = os.path.join(d, 'side', str(k))
            os.mkdir(side)
            res = jplsim.attempt(self.call(dict(sc, out=out)), plan, root, side, timeout)
            after = self.content(path)
            replies = list(self.files(side).values())
            self.tally(fired, plan, res)
            simt += res['clock']
            st = 'before' if after == before else ('complete' if after in replies else 'neither')
            hist.append((res['out'][0], res['out'][1] if res['out'][0] == 'error' else '', st, len(replies), [x[1:] for x in res['log']],
                         res['disk']['wops'], res['where']))
            where = f'download {k + 1}, {res["out"][0]}'
            if st == 'neither':
                viol.append({'class': 'damaged-output', 'where': where,
                             'detail': f'{len(after) if after is not None else "no"} bytes, before: '
                                       f'{len(before) if before is not None else "no"} bytes, sent: {[len(x) for x in replies]}; '
                                       f'outcome {res["out"][:2]}'})
            if res['out'][0] == 'ok' and after not in replies:
                viol.append({'class': 'false-success', 'where': where,
                             'detail': f'returned normally, but the output file ({st}) is no complete reply of the server'})
            if viol:
                break
        return self.finish({'viol': viol, 'fired': fired, 'fired_at': [h[:3] for h in hist], 'points': sum(len(h[4]) + h[5] for h in hist),
                            'sim_time': simt, 'stats': {'downloads': len(hist), 'finished': sum(h[0] == 'ok' for h in hist)},
                            'sample': {'n': sc['n'], 'plans': sc['plans'][:1], 'outcome': [h[:3] for h in hist]}},
                           sc, [hist, sc['prior']])

    @staticmethod
    def content(p):
        try:
            with open(p, 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def shrink(self, sc):
        for c in jplbase.chunks_removed(sc['plans']):
            if c:
                yield dict(sc, plans=c)
        for i, p in enumerate(sc['plans']):
            for q in jplbase.simpler_plan(p):
                yield dict(sc, plans=sc['plans'][:i] + [q] + sc['plans'][i + 1:])
        if sc['prior']:
            yield dict(sc, prior=None)
        for n in (2, sc['n'] // 2):
            if 2 <= n < sc['n']:
                yield dict(sc, n=n)
        for k, v in (('step', 1), ('site', [0., 0., 0.]), ('out', 'x.txt')):
            if sc[k] != v:
                yield dict(sc, **{k: v})
