"""C13: loading a year of ephemeris converges after any failure, then stays local."""
import os

from .. import jplsim
from . import jplbase
from .yearbase import DOWN, YearProp


class Prop(YearProp):
    ID = 'C13'

    def gen(self, r, i, tier):
        lon, lat = jplbase.site(r)
        return {'year': r.choice([2023, 2024, 2024]), 'lon': lon, 'lat': lat,
                'plans': [self.gen_plan(r) for _ in range(r.choice([1, 1, 2, 2, 3] + ([4, 5] if tier == 'thorough' else [])))],
                'early': r.random() < .3}

    def run(self, sc, timeout=120., capture=False):
        d = self.scratch()
        try:
            return self._run(sc, d, timeout)
        finally:
            self.drop(d)

    def _run(self, sc, d, timeout):
        root = os.path.join(d, 'w')
        viol, fired, hist, simt = [], {}, [], 0.
        seq = [('faulty', p) for p in sc['plans']] + [('quiet', {}), ('offline', DOWN)]
        cached = False
        for k, (what, plan) in enumerate(seq):
            res = self.step(root, None, {'year': sc['year'], 'lon': sc['lon'], 'lat': sc['lat'], 'plan': plan}, timeout, fired)
            simt += res['clock']
            o = res['out']
            left = sorted(f[-12:] if f.endswith('.txt') else f[-8:] for f in self.names(root))
            hist.append([what, o[0], str(o[1])[:60] if len(o) > 1 else '', len(res['requests']), res['disk']['wops'], res['where'],
                         len(left)])
            where = f'load {k + 1} ({what})'
            if o[0] == 'ok' and o[1] is not None:
                viol.append({'class': 'wrong-year', 'where': where, 'detail': o[1]})
            if o[0] == 'hang':
                viol.append({'class': 'hang', 'where': where, 'detail': o[1]})
            if what == 'quiet' and o[0] != 'ok':
                viol.append({'class': 'does-not-recover', 'where': where,
                             'detail': f'no fault any more, yet {o[0]} {o[1:]}; files: {left[:8]}'})
            talked = [e for e in res['log'] if e[1] in ('lookup', 'connect', 'request')]
            if what == 'offline':
                if o[0] != 'ok':
                    viol.append({'class': 'needs-the-server', 'where': where, 'detail': f'the year was loaded before, yet {o[0]} {o[1:]}'})
                if talked:
                    viol.append({'class': 'contacts-the-server', 'where': where, 'detail': f'{talked[:3]}'})
            # a success with nothing lost afterwards: no later load may contact the server
            if cached and talked:
                viol.append({'class': 'contacts-the-server', 'where': where, 'detail': f'{talked[:3]}'})
            if o[0] == 'ok':
                cached = cached or plan.get('loss') is None
            if viol:
                break
        return self.finish({'viol': viol, 'fired': fired, 'fired_at': hist[:4], 'points': sum(h[3] + h[4] for h in hist), 'sim_time': simt,
                            'stats': {'loads': len(hist), 'loaded': sum(h[1] == 'ok' for h in hist)},
                            'sample': {'year': sc['year'], 'site': [sc['lon'], sc['lat']], 'plans': sc['plans'][:1], 'outcome': [h[:4] for h in hist]}},
                           sc, [hist, sc['year']])

    @staticmethod
    def names(root):
        return [f for _, _, fs in os.walk(root) for f in fs]

    def shrink(self, sc):
        for c in jplbase.chunks_removed(sc['plans']):
            yield dict(sc, plans=c)
        for i, p in enumerate(sc['plans']):
            for q in self.plan_shrinks(p):
                yield dict(sc, plans=sc['plans'][:i] + [q] + sc['plans'][i + 1:])
        for k, v in (('lon', 1.5), ('lat', 2.5), ('year', 2023)):
            if sc[k] != v:
                yield dict(sc, **{k: v})
