"""C08: one instant, one answer, whatever zone or form the times come in."""
import datetime as dt
import functools
import zoneinfo

import numpy as np
import pandas as pd

from .. import forkrun, rng as _rng, specs, stack
from ..minimize import chunks_removed
from . import base

NS = 10**9
PER_S = {'ns': 10**9, 'us': 10**6}       # 'us': centuries out of the range of nanoseconds
ZONES = ['UTC', 'Europe/Madrid', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Pacific/Apia',
         'America/St_Johns', 'Asia/Kathmandu', 'Africa/Casablanca', 'America/Sao_Paulo', 'Europe/London',
         'Pacific/Kiritimati', 'Asia/Pyongyang', 'America/Caracas', 'Asia/Tehran', 'Australia/Sydney',
         'Antarctica/Troll', 'Europe/Dublin', 'America/Havana', 'Atlantic/Azores', 'Asia/Gaza']
FIXED = [-720, -570, -210, -60, 0, 60, 90, 330, 345, 525, 765, 840]
NAT = int(np.iinfo('int64').min)


@functools.lru_cache(None)
def transitions(name):
    """UTC seconds of offset changes of a zone, 2000-2036."""
    z = zoneinfo.ZoneInfo(name)

    def off(s):
        return dt.datetime.fromtimestamp(s, z).utcoffset()
    lo, hi = 946684800, 2114380800
    out = []
    step = 86400 * 7
    s = lo
    while s < hi:
        if off(s) != off(s + step):
            a, b = s, s + step
            while b - a > 1:
                m = (a + b) // 2
                if off(m) == off(a):
                    a = m
                else:
                    b = m
            out.append(b)
        s += step
    return out


def tz_of(node):
    name, impl = node.get('tz'), node.get('impl')
    if name is None:
        return None
    if impl == 'pytz':
        import pytz
        return pytz.timezone(name)
    if impl == 'pytzfixed':
        import pytz
        return pytz.FixedOffset(int(name))
    if impl == 'dateutil':
        import dateutil.tz
        return dateutil.tz.gettz(name)
    if impl == 'dateutilfixed':
        import dateutil.tz
        return dateutil.tz.tzoffset(None, int(name) * 60)
    if impl == 'fixed':
        return dt.timezone(dt.timedelta(minutes=int(name)))
    return zoneinfo.ZoneInfo(name)


def offset_s(tz, n, unit='ns'):
    """The zone's own answer for its offset at an instant, seconds."""
    if tz is None:
        return 0
    u = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(seconds=n // PER_S[unit])
    return int(u.astimezone(tz).utcoffset().total_seconds())


def contested(tz, n, unit='ns'):
    """pandas and the zone itself disagree about local time near this instant (pandas with
    dateutil's Pacific/Apia around the day that island skipped)."""
    u = dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(seconds=n // PER_S[unit])
    for h in range(-72, 73, 6):
        t = u + dt.timedelta(hours=h)
        if pd.Timestamp(t).tz_convert(tz).tz_localize(None) != pd.Timestamp(t.astimezone(tz).replace(tzinfo=None, fold=0)):
            return True
    return False


NAIVE = ['npns', 'nps', 'npms', 'index', 'list_dt', 'list_ts', 'list_str', 'obj', 'tuple_ts']
AWARE = ['index', 'list_dt', 'list_ts', 'obj', 'list_iso', 'tuple_ts']


def utc_dt(n, unit='ns'):
    return dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(microseconds=n // (PER_S[unit] // 10**6))


def make(ns, node, scalar=False, unit='ns'):
    """The instants ns in the node's representation."""
    tz = tz_of(node)
    form = node['form']
    a = np.array(ns, dtype='int64').view(f'datetime64[{unit}]')
    if tz is None:
        if form == 'npns':
            v = a
        elif form == 'nps':
            v = a.astype('datetime64[s]')
        elif form == 'npms':
            v = a.astype('datetime64[ms]')
        elif form == 'index':
            v = pd.DatetimeIndex(a)
        else:
            v = []
            for n in ns:
                if n == NAT:
                    v.append(pd.NaT)
                elif form in ('list_ts', 'tuple_ts'):
                    v.append(pd.Timestamp(np.datetime64(n, unit)))
                elif form == 'list_str':
                    v.append(utc_dt(n, unit).strftime('%Y-%m-%d %H:%M:%S') + node.get('suffix', ''))
                else:
                    v.append(utc_dt(n, unit).replace(tzinfo=None))
            if form == 'obj':
                v = np.array(v, dtype=object)
            elif form == 'tuple_ts':
                v = tuple(v)
        return v[0] if scalar else v
    if form == 'index':
        v = pd.DatetimeIndex(a).tz_localize('UTC').tz_convert(tz)
    else:
        v = []
        for n in ns:
            if n == NAT:
                v.append(pd.NaT)
            elif form in ('list_ts', 'tuple_ts'):
                v.append(pd.Timestamp(np.datetime64(n, unit)).tz_localize('UTC').tz_convert(tz))
            elif form == 'list_iso':
                v.append(utc_dt(n, unit).astimezone(tz).isoformat())
            else:
                v.append(utc_dt(n, unit).astimezone(tz))
        if form == 'obj':
            v = np.array(v, dtype=object)
        elif form == 'tuple_ts':
            v = tuple(v)
    return v[0] if scalar else v


QUANT = ['zenith', 'azimuth', 'declination', 'eot', 'ecf']


class Prop(base.CallProp):
    ID = 'C08'

    def __init__(self):
        pass

    def prepare(self):
        stack.bring_up(locks=False, cli=False)
        for z in ZONES:
            transitions(z)

    # ------------------------------------------------------------ generation
    def gen(self, r, i, tier):
        zone = r.choice(ZONES)
        tr = transitions(zone)
        n = r.randint(1, 9)
        if tr and r.random() < .8:
            t0 = r.choice(tr) + r.choice([0, 0, 0, -1, 3600, -3600, 1800])
            unit = r.choice([1, 60, 600, 1800, 1800, 3600, 7200])
        else:
            t0 = r.randrange(946684800, 2114380800)
            unit = r.choice([1, 600, 3600, 86400, 86400 * 31])
        unit_t = 'ns'
        if r.random() < .1:
            # a calendar far from ours: nanoseconds do not reach it
            unit_t = 'us'
            t0 = r.choice([r.randrange(-30000000000, -9300000000), r.randrange(9300000000, 80000000000)])
        # a clock that runs, stalls and steps
        t = t0 + unit * r.randint(-n - 2, 2)
        ns, kinds = [], {}
        for _ in range(n):
            ns.append(t * PER_S[unit_t])
            x = r.random()
            k = 'clock-ran'
            if x < .6:
                t += unit
            elif x < .7:
                k = 'clock-stalled'
            elif x < .85:
                k = 'clock-stepped-back'
                t -= unit * r.randint(1, 4)
            else:
                k = 'clock-stepped-forward'
                t += r.choice([3600, 7200, unit * 3])
            kinds[k] = kinds.get(k, 0) + 1
        sub = 0
        if r.random() < .15:
            sub = r.choice([1000, 500000000, 999999000, 123456000])
            ns = [x + sub // (NS // PER_S[unit_t]) for x in ns]
        if unit_t == 'ns':
            ns = [min(max(x, 946684800 * NS), 2114380800 * NS) for x in ns]
        else:
            kinds['far-calendar'] = 1
        if n > 1 and r.random() < .15:
            ns[r.randrange(n)] = NAT
            kinds['reading-lost'] = 1
        uc = r.choice(specs.USECASES)
        al, en = r.choice(specs.ALGS)
        k = n if uc == 'transect' else r.randint(1, 3)
        lat = [round(r.uniform(-66, 66), 3) if r.random() < .85 else round(r.uniform(-90, 90), 2) for _ in range(k)]
        lon = [round(r.uniform(-180, 179.9), 3) for _ in range(k)]
        nodes = [{'tz': zone, 'impl': 'zoneinfo', 'form': 'index'}]
        for _ in range(r.randint(3, 6)):
            x = r.random()
            if x < .2:
                nd = {'form': r.choice(NAIVE)}
            elif x < .4:
                nd = {'tz': str(r.choice(FIXED)), 'impl': r.choice(['fixed', 'pytzfixed', 'dateutilfixed']), 'form': r.choice(AWARE)}
            else:
                z = zone if r.random() < .7 else r.choice(ZONES)
                nd = {'tz': z, 'impl': r.choice(['pytz', 'zoneinfo', 'dateutil', 'pytz']), 'form': r.choice(AWARE)}
                if unit_t == 'us':
                    nd['impl'] = 'zoneinfo'         # the others have no rules for these years
            if sub and nd['form'] in ('nps', 'npms', 'list_str'):
                nd['form'] = 'npns'
            if nd['form'] == 'list_str' and r.random() < .4:
                nd['suffix'] = r.choice(['Z', '+00:00'])
            if nd['form'] == 'list_iso':
                # strings carry offsets, not zones: one offset per call only
                tz = tz_of(nd)
                if NAT in ns or unit_t == 'us' or len({offset_s(tz, q) for q in ns}) > 1:
                    nd['form'] = 'list_ts'
            y = r.random()
            nd['split'] = 'whole' if y < .5 else ('ones' if y < .7 else ('scalars' if y < .85 else 'halves'))
            nd['order'] = r.choice(['asis', 'asis', 'sorted', 'reversed', r.randrange(10**6)])
            nodes.append(nd)
        return {'uc': uc, 'alg': al, 'eng': en, 'refr': r.random() < .5, 'lat': lat, 'lon': lon, 'ns': ns, 'nodes': nodes,
                'clock': kinds, **({'unit': 'us'} if unit_t == 'us' else {})}

    # ------------------------------------------------------------ execution
    @staticmethod
    def order(node, n, ns):
        o = node.get('order', 'asis')
        idx = list(range(n))
        if o == 'sorted':
            idx.sort(key=lambda k: ns[k])
        elif o == 'reversed':
            idx.reverse()
        elif isinstance(o, int):
            import random
            random.Random(o).shuffle(idx)
        return idx

    def child(self, sc):
        import sunwhere
        ns, n = sc['ns'], len(sc['ns'])
        lat, lon = np.array(sc['lat']), np.array(sc['lon'])
        fn = getattr(sunwhere, sc['uc'])
        kw = dict(algorithm=sc['alg'], engine=sc['eng'], refraction=sc['refr'])
        viol = []

        def bad(where, detail, cls='fleet-disagrees'):
            viol.append({'class': cls, 'where': where, 'detail': detail})

        def call(t, idx):
            if sc['uc'] == 'transect':
                return fn(t, lat[idx], lon[idx], **kw)
            return fn(t, lat, lon, **kw)
        unit = sc.get('unit', 'ns')
        ref = call(np.array(ns, dtype='int64').view(f'datetime64[{unit}]'), np.arange(n))
        R = {q: np.asarray(getattr(ref, q).values, dtype=float) for q in QUANT}
        # the reference is itself checked against single evaluations of each instant in UTC
        R['sr'] = ref.sunrise('utc').values
        R['ss'] = ref.sunset('utc').values
        R['tst'] = ref.true_solar_time.values
        done = 0
        for k, nd in enumerate(sc['nodes']):
            idx = self.order(nd, n, ns)
            sp = nd.get('split', 'whole')
            if sp == 'whole':
                parts = [idx]
            elif sp == 'halves' and n > 1:
                parts = [idx[:n // 2], idx[n // 2:]]
            elif sp == 'halves':
                parts = [idx]
            else:
                parts = [[j] for j in idx]
            tz = tz_of(nd)
            for p in parts:
                where = f'node {k} ({nd.get("impl") or "naive"} {nd.get("tz") or ""} {nd["form"]} {sp})'
                pns = [ns[j] for j in p]
                scalar = sp == 'scalars' and pns[0] != NAT
                if all(x == NAT for x in pns):
                    continue            # nothing of the zone or the instants survives
                try:
                    sw = call(make(pns, nd, scalar, unit), p)
                except Exception as e:      # noqa: BLE001
                    bad(where, f'{pns} raised {type(e).__name__}: {e}', 'instants-rejected')
                    break
                done += 1
                e = self.compare(sw, sc, R, p, pns, tz, nd)
                if e:
                    bad(where, e)
                    break
        return {'viol': viol, 'calls': done}

    def compare(self, sw, sc, R, p, pns, tz, nd):
        unit = sc.get('unit', 'ns')
        dt64, per_s = f'datetime64[{unit}]', PER_S[unit]
        exp = np.array(pns, dtype='int64')
        live = exp != NAT
        offs = np.array([0 if x == NAT else offset_s(tz, x, unit) for x in pns], dtype='int64')
        got = sw.times_utc
        if str(got.tz) not in ('UTC', 'tzutc()') and any(g.utcoffset().total_seconds() for g in got[live]):
            return f'times_utc are in zone {got.tz}'
        g = got.tz_convert('UTC').tz_localize(None).to_numpy().astype(dt64).view('int64')
        if g.shape != exp.shape or (g != exp).any():
            return f'times_utc are {g.tolist()}, the instants are {exp.tolist()} ({unit})'
        if nd.get('impl') == 'dateutil' and any(contested(tz, x, unit) for x in pns if x != NAT):
            return None
        loc = sw.times
        if loc.tz is None:
            return 'times have no zone'
        wall = loc.tz_localize(None).to_numpy().astype(dt64).view('int64')
        ewall = np.where(live, exp + offs * per_s, NAT)
        if (wall != ewall).any():
            return f'local times are {loc[:4].tolist()}, expected wall clock {ewall.view("datetime64[ns]")[:4]}'
        if (loc.tz_convert('UTC').tz_localize(None).to_numpy().astype(dt64).view('int64') != exp).any():
            return 'local times are other instants'
        label = sw.timezone
        name = nd.get('tz')
        if nd['form'] == 'list_iso' and tz is not None:
            # strings name an offset, not a zone
            if offs[live].any() and str(label) in ('UTC', 'None', ''):
                return f'zone is reported as {label!r}, given strings with offset {offs.tolist()} s'
        elif nd.get('impl') in ('pytz', 'zoneinfo', 'dateutil'):
            if name not in str(label):
                return f'zone is reported as {label!r}, given {name!r}'
        elif tz is not None and int(name) != 0 and str(label) in ('UTC', 'None', ''):
            return f'zone is reported as {label!r}, given an offset of {name} minutes'
        elif tz is None and label != 'UTC':
            return f'zone is reported as {label!r} for naive times'
        ix = np.array(p)
        for q in QUANT:
            da = getattr(sw, q)
            v = np.asarray(da.values, dtype=float)
            w = R[q][ix]
            if v.shape != w.shape:
                return f'{q} has shape {v.shape}'
            d = np.abs(v - w)
            if q == 'azimuth':
                d = np.minimum(d, np.abs(360 - d))
            tol = 1e-6 if q != 'azimuth' else 1e-4
            if (np.isnan(v) != np.isnan(w)).any() or np.nanmax(d, initial=0.) > tol:
                return f'{q} differs by {np.nanmax(d, initial=0.)} from the same instants in UTC'
            c = da.coords['time'].values.astype(dt64).view('int64')
            if (c != ewall).any():
                return f'{q} is labelled with times {da.coords["time"].values[:4]}, local times are {ewall.view("datetime64[ns]")[:4]}'

        def times(name, v, w, tol):
            v, w = v.astype(dt64), w.astype(dt64)
            if v.shape != w.shape:
                return f'{name} has shape {v.shape}'
            if (np.isnat(v) != np.isnat(w)).any():
                return f'{name} is missing at other places'
            ok = ~np.isnat(v)
            d = np.abs(v.view('int64')[ok] - w.view('int64')[ok])
            if d.size and d.max() > tol:
                return f'{name} differs by {d.max() / per_s} s'
            return None
        for name, v, w in (('sunrise(utc)', sw.sunrise('utc').values, R['sr'][ix]),
                           ('sunset(utc)', sw.sunset('utc').values, R['ss'][ix]),
                           ('true_solar_time', sw.true_solar_time.values, R['tst'][ix])):
            e = times(name, v, w, per_s // 1000)
            if e:
                return e
        for name, f, w in (('sunrise(local)', sw.sunrise, R['sr'][ix]), ('sunset(local)', sw.sunset, R['ss'][ix])):
            o = offs.reshape((-1,) + (1,) * (w.ndim - 1)) * per_s
            w2 = w.astype(dt64) + o.astype(f'timedelta64[{unit}]')
            da = f('local')
            e = times(name, da.values, w2, per_s // 1000)
            if e:
                return e + ' from its UTC value shifted by the zone offset'
        return None

    def run(self, sc, timeout=60.0, capture=False):
        out = forkrun.run(lambda: self.child(sc), timeout)
        fired = dict(sc['clock'])
        for nd in sc['nodes']:
            for k in ((nd.get('impl') or 'naive'), 'form-' + nd['form'], 'split-' + nd.get('split', 'whole')):
                fired[k] = fired.get(k, 0) + 1
        per_s = PER_S[sc.get('unit', 'ns')]
        live = [x for x in sc['ns'] if x != NAT]
        z = sc['nodes'][0].get('tz')
        cross = bool(live) and z in ZONES and any(min(live) / per_s < t <= max(live) / per_s for t in transitions(z))
        rep = {'viol': out['viol'], 'fired': fired, 'fired_at': [], 'switches': 0, 'points': out['calls'], 'trace': '',
               'sites': [], 'stats': {'calls': out['calls']},
               'sim_time': sum(abs(b - a) for a, b in zip(live, live[1:])) / per_s}
        rep['fp'] = _rng.digest([sc['uc'], sc['alg'], sc['eng'], sc['ns'], [sorted(n.items(), key=str) for n in sc['nodes']]])
        rep['nontrivial'] = len(sc['nodes']) > 1 and out['calls'] > 1
        rep['digest'] = _rng.digest([out['calls'], out['viol']])
        rep['sample'] = {'zone': z, 'instants': sc['ns'][:4], 'nodes': sc['nodes'][:3]}
        rep['probes'] = {'crosses-zone-transition': int(cross)}
        return rep

    def shrink(self, sc):
        for c in chunks_removed(sc['nodes'], 1):
            yield dict(sc, nodes=c)
        idx = list(range(len(sc['ns'])))
        for c in chunks_removed(idx, 1):
            out = dict(sc, ns=[sc['ns'][j] for j in c])
            if sc['uc'] == 'transect':
                out['lat'] = [sc['lat'][j] for j in c]
                out['lon'] = [sc['lon'][j] for j in c]
            yield out
        if sc['uc'] != 'transect' and len(sc['lat']) > 1:
            yield dict(sc, lat=sc['lat'][:1], lon=sc['lon'][:1])
        for k, n in enumerate(sc['nodes']):
            for key in ('split', 'order', 'suffix'):
                if key in n:
                    yield dict(sc, nodes=sc['nodes'][:k] + [{a: b for a, b in n.items() if a != key}] + sc['nodes'][k + 1:])
        if sc['refr']:
            yield dict(sc, refr=False)
