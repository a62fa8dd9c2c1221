"""C14: the ephemeris cache never answers for another site or year."""
import os

from . import jplbase
from .yearbase import DOWN, YearProp


class Prop(YearProp):
    ID = 'C14'

    def gen(self, r, i, tier):
        lon, lat = jplbase.site(r)
        sites = [[lon, lat]]
        for _ in range(r.choice([1, 1, 2])):
            a, b = r.choice(sites)
            k = r.choice(['near', 'near', 'near', 'swap', 'sign', 'other', 'digits', 'type', 'lat', 'shift', 'round'])
            if k == 'near':
                e = r.choice([1e-3, 1e-4, 1e-5, 1e-6, 4e-3, .01, .1, 1]) * r.choice([-1, 1])
                n = [a + e, b] if r.random() < .5 else [a, b - abs(e) if b > 0 else b + abs(e)]
            elif k == 'swap':
                n = [b, a] if abs(a) <= 90 else [b, a / 2]
            elif k == 'sign':
                n = [-a, b] if r.random() < .5 else [a, -b]
            elif k == 'digits':
                n = [a / 10, b] if r.random() < .5 else [a, b / 10]
            elif k == 'type':
                n = [int(a) if a == int(a) else a, float(b)]
            elif k == 'lat':
                n = [a, r.uniform(-90, 90)]
            elif k == 'shift':                  # the same digits, cut elsewhere
                n = [1.25, 12.5] if r.random() < .5 else [11.25, 2.5]
                sites.append([1.251, 2.5] if r.random() < .5 else [1.2, 51.25])
            elif k == 'round':
                n = [float(round(a)), float(round(b))]
            else:
                n = list(jplbase.site(r))
            if not (-180 <= n[0] <= 180 and -90 <= n[1] <= 90):
                n = [max(-180, min(180, n[0])), max(-90, min(90, n[1]))]
            sites.append(n)
        steps = []
        for _ in range(r.choice([2, 3, 3, 4] + ([5, 6] if tier == 'thorough' else []))):
            s, y = r.choice(sites), r.choice([2023, 2024, 2024])
            st = {'lon': s[0], 'lat': s[1], 'year': y}
            if r.random() < .1:
                st['year'] = str(y)
            if r.random() < .3:
                st['plan'] = self.gen_plan(r)
            elif r.random() < .12:
                st['plan'] = DOWN
            steps.append(st)
        return {'steps': steps, 'together': r.random() < .4}

    def run(self, sc, timeout=120., capture=False):
        d = self.scratch()
        try:
            return self._run(sc, d, timeout)
        finally:
            self.drop(d)

    def _run(self, sc, d, timeout):
        root = os.path.join(d, 'w')
        viol, fired, hist, simt = [], {}, [], 0.
        # consecutive loads without faults run in one process
        groups = []
        for st in sc['steps']:
            if sc.get('together') and not st.get('plan') and groups and not groups[-1][-1].get('plan'):
                groups[-1].append(st)
            else:
                groups.append([st])
        for g in groups:
            if len(g) == 1:
                res = self.step(root, None, g[0], timeout, fired)
                outs = [res['out']]
            else:
                from .. import jplsim
                fns = [self.load(s['year'], s['lon'], s['lat']) for s in g]

                def fn():
                    out = []
                    for f in fns:
                        try:
                            out.append(('ok', f()))
                        except Exception as e:      # noqa: BLE001
                            out.append(('error', type(e).__name__, str(e)[:200]))
                    return out
                res = jplsim.attempt(fn, {}, root, None, timeout)
                outs = res['out'][1] if res['out'][0] == 'ok' else [res['out']]
            simt += res['clock']
            for st, o in zip(g, outs):
                hist.append([o[0], str(o[1])[:60] if len(o) > 1 else '', st['year'], st['lon'], st['lat'], len(res['requests']), res['where']])
                where = f'load {len(hist)}: {st["year"]} at ({st["lon"]!r}, {st["lat"]!r})'
                if o[0] == 'ok' and o[1] is not None:
                    viol.append({'class': 'another-site-or-year', 'where': where, 'detail': o[1]})
            if viol:
                break
        return self.finish({'viol': viol, 'fired': fired, 'fired_at': hist[:4], 'points': len(hist), 'sim_time': simt,
                            'nontrivial': len({(str(s['year']), float(s['lon']), float(s['lat'])) for s in sc['steps']}) > 1,
                            'stats': {'loads': len(hist), 'loaded': sum(h[0] == 'ok' for h in hist)},
                            'sample': {'loads': [h[:5] for h in hist]}}, sc, [hist])

    def shrink(self, sc):
        for c in jplbase.chunks_removed(sc['steps']):
            if c:
                yield dict(sc, steps=c)
        for i, s in enumerate(sc['steps']):
            if s.get('plan'):
                for q in self.plan_shrinks(s['plan']):
                    yield dict(sc, steps=sc['steps'][:i] + [dict(s, plan=q)] + sc['steps'][i + 1:])
        if sc.get('together'):
            yield dict(sc, together=False)
