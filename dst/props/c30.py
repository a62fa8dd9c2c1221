"""C30: overlapping downloads and loads do not harm one another."""
import os

import numpy as np

from .. import actors, jplsim, sched, stack
from . import jplbase
from .yearbase import DOWN, LOAD_CODES, YearProp, judge

QUIET = ('get', 'read', 'load')


def q_minutes(q):
    return np.arange(q['start'], q['start'] + q['n'] * q['step'], q['step'])


def same_table(df, q):
    t, az, ze, ecf = jplsim.table_of((float(f"{q['site'][0]:.6f}"), float(f"{q['site'][1]:.6f}"), 0.), q_minutes(q))
    got = np.array(df.index.tz_localize(None).values.astype('datetime64[ns]').astype('int64'))
    return len(got) == len(t) and np.array_equal(got, t) and all(
        (np.abs(np.array(df[c], dtype=float) - w) <= 1e-9).all() for c, w in (('azimuth', az), ('zenith', ze), ('ecf', ecf)))


class Prop(YearProp):
    ID = 'C30'

    def prepare(self):
        sched.patch_locks()
        super().prepare()

    def warm(self):
        super().warm()
        d = self.scratch()
        try:
            q = {'start': 28401120, 'n': 30, 'step': 1, 'site': [2.5, 41.25], 'out': 'o/x.txt'}
            self.stops = {}
            for k, s in (('get', {'do': 'get', 'q': q}), ('load', {'do': 'load', 'year': 2023, 'lon': 1., 'lat': 2.})):
                os.mkdir(os.path.join(d, 'side', k))
                r = actors.run([s], [self.fn(s)], [], os.path.join(d, 'w'), os.path.join(d, 'side', k), timeout=240.)
                self.stops[k] = max(20 if k == 'get' else 200, r['actors'][0].stops)
            self.stops['read'] = 12
        finally:
            self.drop(d)

    # ---- what the actors do
    @staticmethod
    def fn(s):
        from sunwhere.utils import jpl_horizons as J
        if s['do'] == 'load':
            return lambda lib: judge(J.load_jpl_ephemeris(s['year'], s['lon'], s['lat']), s['year'], s['lon'], s['lat'])
        if s['do'] == 'get':
            import pandas as pd
            q = s['q']
            a = pd.Timestamp(q['start'] * 60, unit='s')
            b = a + pd.Timedelta(minutes=(q['n'] - 1) * q['step'])
            return lambda lib: str(J.get_jpl_ephemeris(q['out'], a, b, q['site'][0], q['site'][1], step_size=q['step']))

        def read(lib):
            out = []
            for _ in range(s['times']):
                lib.dst_yield(ord('R'))
                try:
                    df = J.read_jpl_ephemeris_file(s['out'])
                    out.append(['table', [bool(same_table(df, q)) for q in s['among']]])
                except Exception as e:      # noqa: BLE001
                    out.append(['error', type(e).__name__, str(e)[:100]])
            return out
        return read

    # ---- generation
    def gen_q(self, r, out):
        lon, lat = jplbase.site(r)
        return {'start': 28401120 + 12 * r.randrange(40000), 'n': r.choice([2, 3, 10, 60, r.randrange(2, 300), r.randrange(2, 2500)]),
                'step': r.choice([1, 12, 12, 60]), 'site': [lon, lat], 'out': out}

    def gen_fault(self, r, s, alone):
        """the plan of an actor with faults of its own"""
        if s['do'] == 'load':
            p = self.gen_plan(r)
            for k in ('loss', 'tz'):
                p.pop(k, None)
        else:
            p = {'net': jplbase.gen_net(r, 0, True)}
            k = r.random()
            if k < .6:
                p['net']['faults'] = [jplbase.gen_net_fault(r) for _ in range(r.choice([1, 1, 2]))]
                if r.random() < .4:
                    p['net']['tail'] = p['net']['faults'][-1]
            if k > .5:
                if r.random() < .7:
                    p['disk'] = jplbase.gen_disk(r, 10)
                else:
                    p['die'] = 1 + r.randrange(90)
        if p.get('disk'):
            p['disk'].pop('power', None)
        if not alone:
            p.pop('disk', None)
            p.pop('die', None)
            p.pop('die_in', None)
            for f in p['net'].get('faults', []) + [p['net'].get('tail') or {}]:
                if f.get('how') in ('interrupt', 'memory'):
                    f['how'] = {'connect': 'refused', 'tls': 'reset', 'send': 'reset', 'silent': 'close', 'cut': 'close'}[f['kind']]
        return p

    def gen(self, r, i, tier):
        deep = tier == 'thorough'
        sc = {'mode': r.choice(['get', 'load'])}
        n = r.choice([2, 2, 2, 3] + ([4] if deep else [])) if sc['mode'] == 'load' else r.choice([2, 2, 3, 3, 4] + ([5] if deep else []))
        acts = []
        if sc['mode'] == 'get':
            outs = r.choice([['x.txt'], ['x.txt'], ['o/x.txt'], ['a/b/c.txt'], ['o/x.txt', 'o/y.txt'], ['a/b/x.txt', 'a/c/x.txt'],
                             ['x.txt', 'x.txt.txt'], ['o/x', 'o/x.part']])
            qs = [self.gen_q(r, o) for o in outs]
            for j in range(n):
                if j and r.random() < .25:
                    acts.append({'do': 'read', 'out': r.choice(outs), 'times': r.choice([1, 2, 5, 12])})
                    continue
                q = dict(r.choice(qs))
                if r.random() < .3:
                    q = self.gen_q(r, q['out'])
                acts.append({'do': 'get', 'q': q})
            sc['prior'] = {o: r.choice([None, None, 'text', 'old']) for o in sorted({a['q']['out'] if 'q' in a else a['out'] for a in acts})}
            sc['old'] = self.gen_q(r, '')
            sc['old']['n'] = min(sc['old']['n'], 300)
        else:
            lon, lat = jplbase.site(r)
            sites = [[lon, lat]]
            if r.random() < .3:
                sites.append([lon, max(-90, min(90, lat + r.choice([1e-6, 1e-3, -.25])))])
            years = r.choice([[2024], [2024], [2023], [2023, 2024]])
            for j in range(n):
                s = r.choice(sites)
                acts.append({'do': 'load', 'year': r.choice(years), 'lon': s[0], 'lat': s[1]})
            sc['prep'] = r.choice([None, None, None, r.randrange(1, 13), r.randrange(8, 13), 'all'])
        sc['acts'] = acts
        k = r.random()
        sc['hosts'] = list(range(n)) if k < .66 else ([0] * n if k < .9 else [r.randrange(n) for _ in range(n)])
        single = {h for h in sc['hosts'] if sc['hosts'].count(h) == 1}
        # faults: of one or more actors, never needed
        for j, a in enumerate(acts):
            if a['do'] == 'read':
                continue
            alone = sc['hosts'][j] in single
            x = r.random()
            if x < .22:
                a['plan'] = self.gen_fault(r, a, alone)
            else:
                a['plan'] = {'net': jplbase.gen_net(r, 0, False)} if a['do'] == 'get' else {}
                if a['do'] == 'get':
                    a['plan']['net']['seg'] = r.choice([65536, 8192])
        est = [self.stops[a['do']] * (6 if alone_ else 1) for a, alone_ in
               zip(acts, [sc['hosts'][j] not in single for j in range(n)])]
        est = [e if acts[j]['do'] != 'load' or e == self.stops['load'] else int(e / 2.5) for j, e in enumerate(est)]
        sc['kills'] = []
        for j in range(n):
            if r.random() < .15:
                sc['kills'].append([j, self.spot(r, est[j])])
        sc['schedule'] = self.gen_order(r, n, est)
        sc['quantum'] = r.choice([1, 2, 5, 30, 100000])
        return sc

    @staticmethod
    def spot(r, e):
        k = r.random()
        if k < .25:
            return max(1, e - r.randrange(max(2, min(e, 60))))
        if k < .4:
            return 1 + r.randrange(12)
        return 1 + r.randrange(max(2, int(e * 1.05)))

    def gen_order(self, r, n, est):
        k = r.random()
        big = 10**6
        if k < .4:              # some stall somewhere while others go on
            out, order = [], r.sample(range(n), n)
            for j in order[:-1]:
                out.append([j, self.spot(r, est[j])])
            out.append([order[-1], r.choice([big, big, self.spot(r, est[order[-1]])])])
            rest = order[:-1]
            r.shuffle(rest)
            for j in rest:
                out.append([j, r.choice([big, r.randrange(1, 40)])])
            return out
        if k < .65:             # one ahead of the others, then in step
            out = [[r.randrange(n), r.choice([0, 1, 2, 3, r.randrange(30), self.spot(r, max(est))])]]
            m = r.choice([1, 1, 2, 3, 7, 20])
            for _ in range(min(1500, 2 * max(est) // m)):
                out += [[j, m] for j in range(n)]
            return [['step', out[0][0], out[0][1], m]]
        out = []
        left = 1.2 * sum(est)
        while left > 0 and len(out) < 400:
            m = int(2 ** r.uniform(0, r.choice([3, 6, 9])))
            out.append([r.randrange(n), m])
            left -= m
        return out

    @staticmethod
    def order(sc):
        """the schedule in full"""
        out = []
        n = len(sc['acts'])
        for s in sc['schedule']:
            if s[0] == 'step':
                out.append([s[1], s[2]])
                for _ in range(min(3000, 6000 // s[3])):
                    out += [[j, s[3]] for j in range(n)]
            else:
                out.append([s[0], s[1]])
        return out

    # ---- one run
    def run(self, sc, timeout=60., capture=False):
        d = self.scratch()
        try:
            return self._run(sc, d, timeout)
        finally:
            self.drop(d)

    def _run(self, sc, d, timeout):
        root, side = os.path.join(d, 'w'), os.path.join(d, 'side')
        acts = sc['acts']
        viol, fired, simt = [], {}, 0.
        names = [f"{a['do']} {j}" for j, a in enumerate(acts)]
        get = sc['mode'] == 'get'
        state = {}
        specs = [{'host': h, 'plan': a.get('plan') or {}} for h, a in zip(sc['hosts'], acts)]

        def bad(cls, where, detail):
            if len(viol) < 5:
                viol.append({'class': cls, 'where': where, 'detail': detail})

        def content(p):
            try:
                with jplsim.REAL_OPEN(os.path.join(root, p), 'rb') as f:
                    return f.read()
            except (FileNotFoundError, NotADirectoryError):
                return None
        if get:
            old = self.old_file(sc['old'])
            for o, p in sc['prior'].items():
                data = {None: None, 'text': b'something else\n' * 40, 'old': old}[p]
                if data is not None:
                    os.makedirs(os.path.dirname(os.path.join(root, o)), exist_ok=True)
                    with open(os.path.join(root, o), 'wb') as f:
                        f.write(data)
                state[o] = {'prior': data, 'now': data, 'full': p == 'old', 'done': False, 'sent': {}}
            for j, a in enumerate(acts):
                if a['do'] == 'read':
                    a = acts[j] = dict(a, among=[b['q'] for b in acts if b['do'] == 'get' and b['q']['out'] == a['out']])
                    if sc['prior'][a['out']] == 'old':
                        a['among'].append(sc['old'])
        elif sc.get('prep'):
            s = acts[0]
            m = 99 if sc['prep'] == 'all' else sc['prep']
            jplsim.attempt(self.load(s['year'], s['lon'], s['lat']),
                           {'net': {'faults': [{}] * m, 'tail': DOWN['net']['tail']}}, root, None, timeout)

        def replies(o):
            """complete replies handed out for a download to o"""
            st = state[o]
            for j, a in enumerate(acts):
                if a['do'] == 'get' and a['q']['out'] == o:
                    x = os.path.join(side, f'a{j}')
                    for f in os.listdir(x):
                        if (j, f) not in st['sent']:
                            with jplsim.REAL_OPEN(os.path.join(x, f), 'rb') as fh:
                                b = st['sent'][j, f] = fh.read()
                            if self.old_file(a['q'])[11:-9] not in b:
                                bad('wrong-request', names[j], 'asked the server for something else than it was asked for')
            return st['sent'].values()

        def look():
            for o, st in state.items():
                c = content(o)
                if c == st['now']:
                    continue
                was, st['now'] = st['now'], c
                if c in replies(o):
                    st['full'] = True
                elif c != st['prior']:
                    bad('damaged-output', o, f'the output file has {len(c) if c is not None else "no"} bytes while the downloads run; before: '
                        f'{len(was) if was is not None else "no"}, sent: {sorted(len(x) for x in replies(o))}')
                elif st['done']:
                    bad('lost-output', o, 'the earlier content is back after a download to the file had returned')

        def mark(a):
            look()
            return state[acts[a.idx]['out']]['full']

        def ended(a):
            s = acts[a.idx]
            if s['do'] == 'get' and a.out[0] == 'ok':
                look()
                st = state[s['q']['out']]
                st['done'] = True
                if st['now'] not in replies(s['q']['out']):
                    bad('false-success', names[a.idx], 'returned, but the output file is no complete reply of the server')
        res = actors.run(specs, [self.fn(s) for s in acts], self.order(sc), root, side, sc['kills'], sc['quantum'],
                         look if get else None, mark if get else None, ended, timeout)
        outs = []
        for a in res['actors']:
            s = acts[a.idx]
            o = a.out
            outs.append([o[0]] + ([str(o[1])[:80]] if len(o) > 1 and s['do'] != 'read' else []))
            for k, n in getattr(a, 'res', {}).get('fired', {}).items():
                fired[k] = fired.get(k, 0) + n
            if o[0] in ('killed', 'crash'):
                fired['process-killed'] = fired.get('process-killed', 0) + 1
            r_ = getattr(a, 'res', None)
            if r_:
                simt = max(simt, r_['clock'])
                for ln in r_['disk']['log']:
                    if ln.startswith('FAULT ') or ln.startswith('FULL'):
                        k = 'disk-' + ln.split()[1] if ln.startswith('FAULT') else 'disk-full'
                        fired[k] = fired.get(k, 0) + 1
                if o[0] == 'interrupt' and r_['where']:
                    fired['interrupt-line'] = fired.get('interrupt-line', 0) + 1
            p = s.get('plan') or {}
            own = bool((p.get('net') or {}).get('faults') or (p.get('net') or {}).get('tail') or p.get('disk') or p.get('die'))
            if o[0] == 'hang':
                if not own or 'steps' in o[1]:
                    bad('hang', names[a.idx], o[1])
            elif o[0] == 'ok':
                if s['do'] == 'load' and o[1] is not None:
                    bad('wrong-result', names[a.idx], o[1])
                if s['do'] == 'read':
                    for k, (x, full) in enumerate(zip(o[1], a.marks)):
                        outs[-1].append(x[:2])
                        if x[0] == 'error' and full:
                            bad('reader-harmed', names[a.idx], f'read {k + 1} of a complete file failed: {x[1:]}')
                        if x[0] == 'table' and not any(x[1]):
                            bad('wrong-result', names[a.idx], f'read {k + 1} gave a table that no download had asked for')
            elif o[0] in ('error', 'interrupt') and not own:
                bad('harmed', names[a.idx], f'failed with no fault of its own: {o[1:]}')
        if get:
            look()
        elif not viol:
            for st in self.combos(acts):
                r_ = jplsim.attempt(self.load(*st), {}, root, None, timeout)
                r2 = jplsim.attempt(self.load(*st), DOWN, root, None, timeout) if r_['out'] == ('ok', None) else r_
                outs.append([r_['out'][0], r2['out'][0], len(r_['requests'])])
                for what, x in (('later', r_), ('later offline', r2)):
                    if x['out'] != ('ok', None):
                        bad('later-load', f'{what} load of {st}', str(x['out'])[:200])
        tr = sc['schedule']
        return self.finish({'viol': viol, 'fired': fired, 'fired_at': outs, 'points': res['steps'], 'sim_time': simt,
                            'switches': res['switches'], 'trace': res['trace'],
                            'nontrivial': res['switches'] > 2,
                            'stats': {'actors': len(acts), 'switches': res['switches'], 'stops': res['steps'],
                                      'threads': len(acts) - len(set(sc['hosts'])), 'finished': sum(o[0] == 'ok' for o in outs[:len(acts)])},
                            'schedule_trace': tr[:200],
                            'sample': {'acts': [a['do'] for a in acts], 'hosts': sc['hosts'], 'kills': sc['kills'], 'schedule': tr[:6],
                                       'outcome': outs}}, sc, [res['trace'], outs])

    @staticmethod
    def combos(acts):
        out = []
        for a in acts:
            c = (a['year'], a['lon'], a['lat'])
            if c not in out:
                out.append(c)
        return out

    @staticmethod
    def old_file(q):
        lines = jplsim.data_lines((float(f"{q['site'][0]:.6f}"), float(f"{q['site'][1]:.6f}"), 0.), q_minutes(q))
        return ('old header\n$$SOE\n' + '\n'.join(lines) + '\n$$EOE\nold tail\n').encode()

    # ---- smaller scenarios
    def shrink(self, sc):
        n = len(sc['acts'])
        if n > 1:
            for j in range(n):
                keep = [k for k in range(n) if k != j]
                new = {k: i for i, k in enumerate(keep)}
                q = dict(sc, acts=[sc['acts'][k] for k in keep], hosts=[sc['hosts'][k] for k in keep],
                         kills=[[new[a], b] for a, b in sc['kills'] if a in new],
                         schedule=[s if s[0] == 'step' else [new[s[0]], s[1]] for s in sc['schedule'] if s[0] == 'step' or s[0] in new])
                q['schedule'] = [['step', new.get(s[1], 0)] + s[2:] if s[0] == 'step' else s for s in q['schedule']]
                yield q
        for c in jplbase.chunks_removed(sc['kills']):
            yield dict(sc, kills=c)
        for c in jplbase.chunks_removed(sc['schedule']):
            yield dict(sc, schedule=c)
        for j, a in enumerate(sc['acts']):
            p = a.get('plan')
            if p:
                for q in ([{}] if a['do'] == 'get' else []) + list(self.plan_shrinks(p)):
                    yield dict(sc, acts=sc['acts'][:j] + [dict(a, plan=q)] + sc['acts'][j + 1:])
            if a['do'] == 'get' and a['q']['n'] > 2:
                yield dict(sc, acts=sc['acts'][:j] + [dict(a, q=dict(a['q'], n=2))] + sc['acts'][j + 1:])
            if a['do'] == 'read' and a['times'] > 1:
                yield dict(sc, acts=sc['acts'][:j] + [dict(a, times=1)] + sc['acts'][j + 1:])
        if sc.get('prep'):
            yield dict(sc, prep=None)
        if len(set(sc['hosts'])) < n:
            yield dict(sc, hosts=list(range(n)))
        for j, s in enumerate(sc['schedule']):
            if s[0] != 'step' and s[1] > 1 and s[1] < 10**6:
                for m in (s[1] // 2, s[1] - 1):
                    yield dict(sc, schedule=sc['schedule'][:j] + [[s[0], m]] + sc['schedule'][j + 1:])
        if sc.get('quantum') != 100000:
            yield dict(sc, quantum=100000)


_ = (QUIET, LOAD_CODES, stack)
