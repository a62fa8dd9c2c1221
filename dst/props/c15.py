"""C15: a download asks for exactly what was requested or refuses untouched."""
import datetime as dtm
import os
import urllib.parse
import zoneinfo

import numpy as np

from .. import jplsim
from . import jplbase

AWARE = ['Asia/Kathmandu', 'America/New_York', 'Europe/Madrid', 'Australia/Lord_Howe', 'UTC', 'America/St_Johns', 'Pacific/Apia']
LIMIT = 90024


def moment(m, form, zone):
    """The instant m (minutes since 1970, UTC) as a caller would pass it."""
    import pandas as pd
    t = jplsim.EPOCH + dtm.timedelta(minutes=m)
    if form == 'ts':
        return pd.Timestamp(t)
    if form == 'dt':
        return t
    if form == 'np':
        return np.datetime64(t, 'm')
    if form == 'npns':
        return np.datetime64(t, 'ns')
    if form == 'str':
        return t.strftime('%Y-%m-%d %H:%M')
    if form == 'iso':
        return t.isoformat()
    if form == 'isoz':
        return t.isoformat() + 'Z'
    u = t.replace(tzinfo=dtm.timezone.utc)
    if form == 'ats':
        return pd.Timestamp(u).tz_convert(zone)
    if form == 'adt':
        return u.astimezone(zoneinfo.ZoneInfo(zone))
    if form == 'apytz':
        import pytz
        return u.astimezone(pytz.timezone(zone))
    if form == 'autil':
        import dateutil.tz
        return u.astimezone(dateutil.tz.gettz(zone))
    if form == 'astr':
        return u.astimezone(zoneinfo.ZoneInfo(zone)).isoformat()
    if form == 'date':
        return t.date() if m % 1440 == 0 else t
    raise AssertionError(form)


FORMS = ['ts', 'ts', 'dt', 'np', 'npns', 'str', 'str', 'iso', 'isoz', 'ats', 'ats', 'adt', 'apytz', 'autil', 'astr', 'date']
NUMS = {'f': float, 'i': lambda x: int(x) if float(x).is_integer() else float(x), 'n': np.float64, 'h': np.float32}


class Prop(jplbase.JplProp):
    ID = 'C15'

    def gen(self, r, i, tier):
        calls = []
        nominal = [r.choice([28401120, 27348480, 28482600, 28791300]) + r.randrange(-3000, 3000) for _ in range(2)]
        lon, lat = jplbase.site(r)
        big = 0
        for _ in range(r.choice([1, 1, 2, 3])):
            c = {'start': r.choice(nominal) if r.random() < .8 else r.randrange(0, 60000000), 'step': r.choice([1, 1, 12, 5, 60, 7, 1440])}
            k = r.random()
            if k < .22 and big < 2:
                c['n'] = LIMIT + r.choice([0, 0, 1, 1, 1, 2, -1, 3000, 10**6])
                if c['step'] > 60:
                    c['step'] = 5
                c['start'] = min(c['start'], 29000000)
                big += c['n'] <= LIMIT
            else:
                c['n'] = r.choice([2, 3, 25, r.randrange(2, 400)])
            c['over'] = r.randrange(c['step'])          # the end need not be on a step
            a, b = (lon, lat) if r.random() < .6 else jplbase.site(r)
            c.update(lon=a, lat=b, elev=r.choice([None, 0., 0, 1, .25, 2.3456, -.4, .0005]), forms=[r.choice(FORMS), r.choice(FORMS)],
                     zones=[r.choice(AWARE), r.choice(AWARE)], nums=[r.choice('fffinh'), r.choice('fffinh')],
                     stepform=r.choice(['int', 'int', 'float', 'np']), out=r.choice(['x.txt', 'x.txt', 'd/y.txt', 'd/e/z.txt']),
                     prior=r.random() < .4, path=r.random() < .5)
            if r.random() < .3:
                c['again'] = True                       # the caller tries again if it failed
            p = {'net': jplbase.gen_net(r, 0, False)}
            p['net']['seg'] = max(p['net']['seg'], 8192 if c['n'] < 5000 else 65536)
            p['net']['gap'] = 0.
            if r.random() < .4:
                p['net']['faults'] = [jplbase.gen_net_fault(r) for _ in range(r.choice([1, 1, 2, 4, 5]))]
            if r.random() < .6:
                p['tz'] = r.choice(jplbase.ZONES)
            c['plan'] = p
            calls.append(c)
        return {'calls': calls}

    @staticmethod
    def asked(c):
        conv = [NUMS[k] for k in c['nums']]
        lon, lat = conv[0](c['lon']), conv[1](c['lat'])
        stop = c['start'] + (c['n'] - 1) * c['step'] + c['over']
        return lon, lat, c['elev'], c['start'], stop, c['step']

    def caller(self, c):
        from pathlib import Path
        from sunwhere.utils.jpl_horizons import get_jpl_ephemeris
        lon, lat, elev, m0, m1, step = self.asked(c)
        a, b = moment(m0, c['forms'][0], c['zones'][0]), moment(m1, c['forms'][1], c['zones'][1])
        s = {'int': int, 'float': float, 'np': np.int64}[c['stepform']](step)
        kw = {} if elev is None else {'site_elev': elev}
        out = Path(c['out']) if c['path'] else c['out']

        def fn():
            for k in range(3 if c.get('again') else 1):
                try:
                    get_jpl_ephemeris(out, a, b, lon, lat, step_size=s, **kw)
                    return True
                except Exception:       # noqa: BLE001
                    if k == 2 or not c.get('again'):
                        raise
        return fn

    @staticmethod
    def tree(root):
        out = []
        for a, ds, fs in os.walk(root):
            for x in [a] + [os.path.join(a, f) for f in fs]:
                st = os.lstat(x)
                out.append((os.path.relpath(x, root), st.st_ino, st.st_mtime_ns, st.st_size))
        return sorted(set(out))

    def run(self, sc, timeout=90., capture=False):
        d = self.scratch()
        try:
            return self._run(sc, d, timeout)
        finally:
            self.drop(d)

    def _run(self, sc, d, timeout):
        root = os.path.join(d, 'w')
        viol, fired, hist, simt = [], {}, [], 0.
        for k, c in enumerate(sc['calls']):
            path = os.path.join(root, c['out'])
            if c['prior'] and not os.path.exists(path):
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, 'wb') as f:
                    f.write(b'earlier\n' * 30)
            before = self.tree(root)
            res = jplsim.attempt(self.caller(c), c['plan'], root, None, timeout)
            self.tally(fired, c['plan'], res)
            simt += res['clock']
            o = res['out']
            bad = lambda cl, de: viol.append({'class': cl, 'where': f'download {k + 1}: {c["n"]} lines', 'detail': de})     # noqa: E731,B023
            hist.append([o[0], o[1] if o[0] == 'error' else '', c['n'], c['forms'], len(res['requests']), [x[1:] for x in res['log']]])
            if c['n'] > LIMIT:
                fired['over-the-limit'] = fired.get('over-the-limit', 0) + 1
                if o[0] != 'error':
                    bad('not-refused', f'{c["n"]} lines: {o[0]}')
                if res['log']:
                    bad('traffic-before-refusal', f'{res["log"][:2]}')
                if self.tree(root) != before or res['disk']['wops']:
                    bad('touched-before-refusal', f'{res["disk"]["log"][:3]}')
                continue
            lon, lat, elev, m0, m1, step = self.asked(c)
            faults = sum(res['fired'].values())
            moved = any(x.startswith('redirect') for x in res['fired'])
            for t in res['requests']:
                u = urllib.parse.urlsplit(t)
                if moved and (u.path != '/api/horizons.api' or 'COMMAND' not in u.query):
                    continue
                e = self.differs(u, t, (lon, lat, elev or 0.), m0, m1, step)
                if e:
                    bad('wrong-query', e)
                    break
            if not faults:
                if o[0] != 'ok':
                    bad('not-accepted', f'no fault, yet {o}')
                elif len(res['requests']) != 1:
                    bad('several-queries', f'{len(res["requests"])} requests without any fault')
            if o[0] == 'ok' and not viol:
                mins = np.arange(m0, m1 + 1, step)
                site = (float(f'{float(lon):.6f}'), float(f'{float(lat):.6f}'), float(f'{float(elev or 0.):.3f}'))
                with open(path, encoding='utf-8', errors='replace') as f:
                    text = f.read()
                got = text[text.find('$$SOE\n') + 6:text.find('\n$$EOE\n')].split('\n')
                want = jplsim.data_lines(site, mins)
                if got != want:
                    bad('wrong-window', f'{len(got)} lines from {got[0][:21]} to {got[-1][:21]}, expected {len(want)} from {want[0][:21]} to {want[-1][:21]}')
            if viol:
                break
        return self.finish({'viol': viol, 'fired': fired, 'fired_at': [h[:5] for h in hist], 'points': sum(len(h[5]) for h in hist), 'sim_time': simt,
                            'nontrivial': True, 'stats': {'downloads': len(hist), 'requests': sum(h[4] for h in hist)},
                            'sample': {'calls': [{a: c[a] for a in ('n', 'step', 'forms', 'lon', 'lat')} for c in sc['calls']],
                                       'outcome': [h[:5] for h in hist]}}, sc, [hist, [(c['zones'], c['nums'], c['elev']) for c in sc['calls']]])

    @staticmethod
    def differs(u, t, site, m0, m1, step):
        if u.scheme != 'https' or u.netloc != jplsim.HOST:
            return f'asked {u.scheme}://{u.netloc}'
        try:
            s, a, b, st, odd = jplsim.understand(jplsim.parse_query(t))
        except jplsim.BadQuery as e:
            return f'{e}: {t}'
        for name, g, w, tol in (('longitude', s[0], site[0], 5.1e-7), ('latitude', s[1], site[1], 5.1e-7), ('elevation', s[2], site[2], 5.1e-4)):
            if not abs(g - float(w)) <= tol:
                return f'{name} {g} asked instead of {w}'
        for name, g, w in (('start', a, m0), ('stop', b, m1), ('step', st, step)):
            if g != w:
                return f'{name} {g} asked instead of {w} (minutes)'
        if odd:
            return f'unexpected options {odd}'
        return None

    def shrink(self, sc):
        for c in jplbase.chunks_removed(sc['calls']):
            if c:
                yield dict(sc, calls=c)
        for i, c in enumerate(sc['calls']):
            rep = lambda x: dict(sc, calls=sc['calls'][:i] + [x] + sc['calls'][i + 1:])     # noqa: E731,B023
            for q in jplbase.simpler_plan(c['plan']):
                yield rep(dict(c, plan=q))
            for k, v in (('over', 0), ('lon', 0.), ('lat', 0.), ('elev', None), ('forms', ['ts', 'ts']), ('nums', ['f', 'f']), ('stepform', 'int'),
                         ('step', 1), ('out', 'x.txt'), ('prior', False), ('again', False), ('n', 2), ('n', 90024), ('n', 90025), ('start', 28401120)):
                if c.get(k, v) != v and not (k == 'n' and v > c['n']):
                    q = dict(c, **{k: v})
                    q['over'] = min(q['over'], q['step'] - 1)
                    yield rep(q)
