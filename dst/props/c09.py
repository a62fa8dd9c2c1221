"""C09: batching, order, loss or duplication never changes an observation's answer.

A coordinator deals a field of observations out to simulated workers in
messages: chunked, reordered, duplicated, with elements lost, through any entry
point; workers die in mid-message and the message is dealt again.  Whatever
plan was followed, each observation must have the answer it has on its own."""
import numpy as np
import pandas as pd

from .. import forkrun, interrupt, rng as _rng, specs, stack
from ..minimize import chunks_removed
from . import base

NAT = int(np.iinfo('int64').min)
SCALARS = ['eot', 'ecf', 'declination']
TOL_DEG = 1e-3


def direction(z, a):
    z, a = np.radians(z), np.radians(a)
    return np.stack([np.sin(z) * np.cos(a), np.sin(z) * np.sin(a), np.cos(z)])


def angle(z1, a1, z2, a2):
    """Degrees between two directions (NaN where either is missing)."""
    d = direction(z1, a1) - direction(z2, a2)
    return np.degrees(2 * np.arcsin(np.minimum(1., np.sqrt((d * d).sum(0)) / 2)))


def overhead(z1, z2, tol):
    """True where both answers have the sun so close to the zenith or the nadir
    that the small constant refraction the formulae add there (about 0.01
    degrees) points in a direction rounding decides; the zeniths agree."""
    return (np.abs(np.sin(np.radians(z1))) < 4e-4) & (np.abs(z1 - z2) <= tol)


def same(z1, a1, z2, a2):
    """True where two answers for the direction agree; NaN agrees with NaN."""
    z1, a1, z2, a2 = (np.asarray(x, dtype=float) for x in (z1, a1, z2, a2))
    ok = (angle(z1, a1, z2, a2) <= TOL_DEG) | (overhead(z1, z2, TOL_DEG) & np.isfinite(a1) & np.isfinite(a2))
    nan = (np.isnan(z1) & np.isnan(z2)) & (np.isnan(a1) & np.isnan(a2))
    return ok | nan


def subsolar(sunwhere, ns, kw, anti=False):
    """Where the backend has the sun at the zenith (nadir) at these instants."""
    sw = sunwhere.sites(np.asarray(ns, dtype='int64').view('datetime64[ns]'), 0., 0., **kw)
    dec, eot = sw.declination.values, sw.eot.values
    lon = 180. - (np.asarray(ns) // 10**9 % 86400) / 240. - eot / 4. + (180. if anti else 0.)
    return (-dec if anti else dec), (lon + 180.) % 360. - 180.


def utc_index(sw):
    t = sw.times_utc
    return t.tz_convert('UTC').tz_localize(None).to_numpy().astype('datetime64[ns]').view('int64')


class Prop(base.CallProp):
    ID = 'C09'

    def __init__(self):
        pass

    def prepare(self):
        stack.bring_up(locks=False, cli=False)

    # ------------------------------------------------------------ generation
    def gen(self, r, i, tier):
        al, en = r.choice(specs.ALGS)
        sc = {'alg': al, 'eng': en, 'refr': r.random() < .5}
        if r.random() < (.05 if tier == 'quick' else .08):
            sc['big'] = self.gen_big(r, al, tier)
            return sc
        lim = 89. if al == 'iqbal' else 90.
        k, m = r.randint(2, 8), r.randint(1, 6)
        t0 = specs.Y2000 + r.randrange(50 * 365 * 86400)
        if r.random() < .15:
            t0 = r.randrange(-5000000000, 6000000000)       # 1811 .. 2160
        d = r.choice([1, 60, 600, 3600, 21600, 86400, 86400 * 45])
        T = [t0 + j * d for j in range(k)]
        if r.random() < .3:
            T = [specs.Y2000 + r.randrange(50 * 365 * 86400) for _ in range(k)]
        if r.random() < .2 and k > 2:
            T[r.randrange(k)] = T[0]
        P = []
        for _ in range(m):
            x = r.random()
            if x < .6 or not P:
                P.append([round(r.uniform(-lim, lim), 3), round(r.uniform(-180, 179.99), 3)])
            elif x < .8:
                P.append([P[-1][0], round(r.uniform(-180, 179.99), 3)])
            elif x < .9:
                P.append([round(P[-1][0] * .999999, 7), P[-1][1]])
            else:
                P.append([r.choice([0., 45., -45., lim, -lim, -1., 1.]), r.choice([0., -180., 90., -90., 179.99])])
        if r.random() < .3:
            # where the sun is (nearly) at the zenith or nadir at one of the instants
            for _ in range(r.randint(1, 2)):
                e = r.choice([0., 0., 1e-6, 1e-4, 1e-3, .02, .2])
                P[r.randrange(m)] = {'sun': r.randrange(k), 'anti': r.random() < .4,
                                     'off': [r.uniform(-e, e), r.uniform(-e, e)]}
        sc['T'], sc['P'] = T, P
        if r.random() < .25:
            sc['sub'] = r.choice([500000000, 999999000, 1000, 999000000, 250000000])
        sc['plans'] = [self.gen_plan(r, k, m) for _ in range(r.randint(2, 4))]
        return sc

    def gen_plan(self, r, k, m):
        uc = r.choice(specs.USECASES)
        if uc == 'transect':
            obs = [[a, b] for a in range(k) for b in range(m)]
            if len(obs) > 24:
                obs = r.sample(obs, 24)
        else:
            obs = [[a] for a in range(k)]
        y = r.random()
        if y < .45:
            r.shuffle(obs)
        elif y < .6:
            obs.reverse()
        if r.random() < .4:
            for _ in range(r.randint(1, 4)):
                obs.insert(r.randrange(len(obs) + 1), r.choice(obs))
        n = len(obs)
        x = r.random()
        if x < .25:
            cuts = []
        elif x < .4:
            cuts = list(range(1, n))
        else:
            cuts = sorted(r.sample(range(1, n), min(n - 1, r.randint(1, 4))))
        if len(cuts) > 10:
            cuts = sorted(r.sample(cuts, 10))
        parts = [obs[a:b] for a, b in zip([0] + cuts, cuts + [n])]
        msgs = []
        for p in parts:
            w = {'t': [q[0] for q in p]}
            if uc == 'transect':
                w['p'] = [q[1] for q in p]
            else:
                for key in (('p',) if uc == 'sites' else ('la', 'lo')):
                    ix = list(range(m))
                    if r.random() < .5:
                        r.shuffle(ix)
                    if r.random() < .4:
                        ix = ix[:r.randint(1, m)]
                    if r.random() < .25:
                        ix.insert(r.randrange(len(ix) + 1), r.choice(ix))
                    w[key] = ix
            if r.random() < .3:
                w['lost_t'] = sorted(r.sample(range(len(p)), r.randint(1, len(p))))
                if len(w['lost_t']) == len(p) and r.random() < .8:
                    w['lost_t'].pop()
            if r.random() < .2:
                dim = r.choice([q for q in ('p', 'la', 'lo') if q in w])
                w['lost_' + dim] = sorted(r.sample(range(len(w[dim])), r.randint(1, len(w[dim]))))
                if dim == 'p':
                    w['lost_as'] = r.choice(['lat', 'lon', 'both'])
            if r.random() < .15:
                w['die'] = r.randint(1, 160)
            w['form'] = r.choice(['npns', 'index', 'list_ts', 'nps', 'npns'])
            if len(w['t']) == 1 and r.random() < .3 and not w.get('lost_t'):
                w['scalar'] = True
            w['pform'] = r.choice(['array', 'list', 'array', 'strided'])
            msgs.append(w)
        if r.random() < .3:
            msgs.insert(r.randrange(len(msgs) + 1), dict(r.choice(msgs)))      # a message delivered twice
        if r.random() < .1:
            # a worker is left without instants
            w = {'t': [], 'form': r.choice(['npns', 'index', 'list_ts']), 'pform': 'array'}
            w.update({'p': []} if uc == 'transect' else {k: [0] for k in (('p',) if uc == 'sites' else ('la', 'lo'))})
            msgs.insert(r.randrange(len(msgs) + 1), w)
        if r.random() < .3:
            r.shuffle(msgs)
        return {'uc': uc, 'msgs': msgs}

    def gen_big(self, r, al, tier):
        slow = al in ('nrel', 'iqbal')
        cap = (120000 if slow else 500000) if tier == 'quick' else (400000 if slow else 1500000)
        uc = r.choice(specs.USECASES)
        n = int(10 ** r.uniform(3, np.log10(cap)))
        near = r.choice([0, 0, 1, -1])
        if r.random() < .5:
            n = min(cap, 2 ** r.randint(10, int(np.log2(cap))) + near)
        b = {'uc': uc, 'seed': r.randrange(10**6), 't0': specs.Y2000 + r.randrange(40 * 365 * 86400),
             'd': r.choice([1, 60, 600, 3600]), 'sub': r.choice([0, 0, 500000000, 999999000])}
        if uc == 'transect':
            b['K'] = n // 2 + 1
        elif uc == 'sites':
            b['K'] = r.choice([1, 2, 5, 24, 365, 8760, n])
            b['K'] = min(b['K'], n)
            b['J'] = max(1, n // b['K'])
            if b['K'] == n and n > 50000:
                b['K'] = n // 2
        else:
            b['K'] = r.choice([1, 2, 3, 8, 24])
            b['J'] = max(1, int(round((n / b['K']) ** .5)))
            b['I'] = max(1, n // b['K'] // b['J'])
        b['nat'] = r.random() < .3
        K = b['K']
        b['tcuts'] = sorted({r.randrange(1, K) for _ in range(r.randint(1, 3))}) if K > 1 else []
        b['shuffle'] = r.random() < .3
        b['track'] = uc == 'transect' and r.random() < .4
        return b

    # ------------------------------------------------------------ execution
    @staticmethod
    def pform(a, form):
        if form == 'list':
            return a.tolist()
        if form == 'strided':
            b = np.zeros((a.size, 3))
            b[:, 1] = a
            return b[:, 1]
        return a

    def message(self, sc, uc, w):
        """Arguments of a message and the labels its answer must have."""
        ns = np.array([sc['T'][j] for j in w['t']], dtype='int64') * 10**9 + sc.get('sub', 0)
        for j in w.get('lost_t', ()):
            ns[j] = NAT
        P = np.array(sc['P'], dtype=float)
        if uc == 'regular_grid':
            lat, lon = P[w['la'], 0].copy(), P[w['lo'], 1].copy()
            lat[w.get('lost_la', [])] = np.nan
            lon[w.get('lost_lo', [])] = np.nan
        else:
            lat, lon = P[w['p'], 0].copy(), P[w['p'], 1].copy()
            if w.get('lost_p'):
                if w['lost_as'] in ('lat', 'both'):
                    lat[w['lost_p']] = np.nan
                if w['lost_as'] in ('lon', 'both'):
                    lon[w['lost_p']] = np.nan
        a = ns.view('datetime64[ns]')
        f = w.get('form', 'npns')
        if f == 'nps' and not sc.get('sub'):
            t = a.astype('datetime64[s]')
        elif f == 'index':
            t = pd.DatetimeIndex(a)
        elif f == 'list_ts':
            t = [pd.Timestamp(x) for x in a]
        else:
            t = a
        if w.get('scalar'):
            t = t[0]
        return t, self.pform(lat, w.get('pform')), self.pform(lon, w.get('pform')), ns, lat, lon

    @staticmethod
    def labels(sw, uc, ns, lat, lon):
        """None, or what is wrong with the labels of an answer."""
        def same_f(x, y):
            x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
            return x.shape == y.shape and bool(((x == y) | (np.isnan(x) & np.isnan(y))).all())
        u = utc_index(sw)
        if u.shape != ns.shape or (u != ns).any():
            return 'the instants of the answer are others'
        if not same_f(sw.latitude, lat) or not same_f(sw.longitude, lon):
            return 'the places of the answer are others'
        for q in ('zenith', 'azimuth', *SCALARS):
            c = getattr(sw, q).coords
            ct = np.atleast_1d(c['time'].values).astype('datetime64[ns]').view('int64')
            if ct.shape != ns.shape or (ct != ns).any():
                return f'{q} is labelled with other instants'
            if q in ('zenith', 'azimuth') and not (same_f(np.atleast_1d(c['latitude'].values), lat)
                                                   and same_f(np.atleast_1d(c['longitude'].values), lon)):
                return f'{q} is labelled with other places'
        return None

    def child(self, sc):
        import sunwhere
        viol, fired = [], {}
        kw = dict(algorithm=sc['alg'], engine=sc['eng'], refraction=sc['refr'])

        def bad(where, detail, cls='depends-on-batch'):
            viol.append({'class': cls, 'where': where, 'detail': detail})

        def fire(k, n=1):
            fired[k] = fired.get(k, 0) + n
        if sc.get('big'):
            n = self.big(sc, sunwhere, kw, bad, fire)
            return {'viol': viol, 'fired': fired, 'calls': n, 'died': []}
        single, died, calls = {}, [], 0
        if any(isinstance(q, dict) for q in sc['P']):
            lim, P = (89. if sc['alg'] == 'iqbal' else 90.), []
            for q in sc['P']:
                if isinstance(q, dict):
                    la, lo = subsolar(sunwhere, [sc['T'][q['sun']] * 10**9 + sc.get('sub', 0)], kw, q['anti'])
                    q = [min(lim, max(-lim, float(la[0]) + q['off'][0])), min(179.999, max(-180., float(lo[0]) + q['off'][1]))]
                    fire('sun-at-zenith')
                P.append(q)
            sc = dict(sc, P=P)
        T, P = sc['T'], sc['P']

        def alone(t, lat, lon):
            key = (t, lat, lon)
            if key not in single:
                sw = sunwhere.sites(np.array([t], dtype='int64').view('datetime64[ns]'), lat, lon, **kw)
                single[key] = (float(sw.zenith.values[0, 0]), float(sw.azimuth.values[0, 0]),
                               *(float(getattr(sw, q).values[0]) for q in SCALARS))
            return single[key]
        for pi, plan in enumerate(sc['plans']):
            uc = plan['uc']
            fn = getattr(sunwhere, uc)
            for mi, w in enumerate(plan['msgs']):
                where = f'plan {pi} ({uc}), message {mi} ({len(w["t"])} instants)'
                t, la, lo, ns, lat, lon = self.message(sc, uc, w)
                if w.get('die'):
                    with interrupt.Die(w['die']) as d:
                        try:
                            fn(t, la, lo, **kw)
                        except interrupt.WorkerDied:
                            pass
                    if d.fired:
                        fire('worker-died')
                        died.append(d.where)
                for k in ('lost_t', 'lost_p', 'lost_la', 'lost_lo'):
                    if w.get(k):
                        fire(k, len(w[k]))
                if len(set(w['t'])) < len(w['t']) and uc != 'transect':
                    fire('duplicate')
                if w['t'] != sorted(w['t']):
                    fire('reordered')
                try:
                    sw = fn(t, la, lo, **kw)
                except Exception as e:      # noqa: BLE001
                    bad(where, f'raised {type(e).__name__}: {e}', 'message-rejected')
                    continue
                calls += 1
                e = self.labels(sw, uc, ns, lat, lon)
                if e:
                    bad(where, e, 'wrong-labels')
                    continue
                e = self.values(sw, sc, uc, w, ns, lat, lon, alone)
                if e:
                    bad(where, e)
            if len(plan['msgs']) > 1:
                fire('split')
        return {'viol': viol, 'fired': fired, 'calls': calls, 'died': died}

    def values(self, sw, sc, uc, w, ns, lat, lon, alone):
        Z, A = sw.zenith.values, sw.azimuth.values
        shape = {'transect': (ns.size,), 'sites': (ns.size, lat.size), 'regular_grid': (ns.size, lat.size, lon.size)}[uc]
        if Z.shape != shape or A.shape != shape:
            return f'shape is {Z.shape}, expected {shape}'
        SV = {q: getattr(sw, q).values for q in SCALARS}
        step = max(1, int(np.prod(shape)) // 40)
        if 0 in shape:
            return None
        for c, ix in enumerate(np.ndindex(*shape)):
            if c % step and ns[ix[0]] != NAT:
                continue
            n = ns[ix[0]]
            y = lat[ix[0] if uc == 'transect' else ix[1]]
            x = lon[ix[0] if uc == 'transect' else ix[-1]]
            if n == NAT or np.isnan(x) or np.isnan(y):
                if not (np.isnan(Z[ix]) and np.isnan(A[ix])):
                    return f'lost observation {ix} has position zenith={Z[ix]} azimuth={A[ix]}'
                if n == NAT and not all(np.isnan(SV[q][ix[0]]) for q in SCALARS):
                    return f'lost instant {ix[0]} has values'
                if n == NAT:
                    continue
                # the place is lost: what depends on the instant alone must be there
                o = alone(int(n), 0., 0.)
            else:
                o = alone(int(n), float(y), float(x))
                if np.isnan(Z[ix]) or np.isnan(A[ix]):
                    return f'{pd.Timestamp(n)} at ({y}, {x}) was not lost and has position zenith={Z[ix]} azimuth={A[ix]}'
                if not same(Z[ix], A[ix], o[0], o[1]):
                    return (f'{pd.Timestamp(n)} at ({y}, {x}) is ({Z[ix]}, {A[ix]}) in the batch and '
                            f'({o[0]}, {o[1]}) alone')
            for q, v in zip(SCALARS, o[2:]):
                g = SV[q][ix[0]]
                tol = TOL_DEG if q != 'ecf' else 1e-6
                if not (abs(g - v) <= tol or (np.isnan(g) and np.isnan(v))):
                    return f'{q} of {pd.Timestamp(n)} is {g} in the batch and {v} alone'
        return None

    def big(self, sc, sunwhere, kw, bad, fire):
        b = sc['big']
        uc, K = b['uc'], b['K']
        rs = np.random.RandomState(b['seed'])
        lim = 89. if sc['alg'] == 'iqbal' else 90.
        ns = (np.int64(b['t0']) + np.arange(K, dtype='int64') * b['d']) * 10**9 + b.get('sub', 0)
        if b.get('shuffle'):
            rs.shuffle(ns)
        if b.get('nat'):
            ns[rs.randint(0, K, max(1, K // 50))] = NAT
            if (ns == NAT).all():
                ns[:] = b['t0'] * 10**9
            fire('lost_t', int((ns == NAT).sum()))
        J = K if uc == 'transect' else b['J']
        lat = np.round(rs.uniform(-lim, lim, J), 4)
        lon = np.round(rs.uniform(-180, 179.99, b['I'] if uc == 'regular_grid' else J), 4)
        if b.get('track') and uc == 'transect' and not b.get('nat'):
            # the place follows the sun
            lat, lon = subsolar(sunwhere, ns, kw)
            off = rs.randint(0, 3, K) * 1e-3
            lat, lon = np.clip(lat + off * rs.uniform(-1, 1, K), -lim, lim), np.clip(lon + off * rs.uniform(-1, 1, K), -180, 179.999)
            fire('sun-at-zenith')
        fn = getattr(sunwhere, uc)
        t = ns.view('datetime64[ns]')
        where = f'batch of {K} instants and {lat.size} x {lon.size} places ({uc})'
        whole = fn(t, lat, lon, **kw)
        e = self.labels(whole, uc, ns, lat, lon)
        if e:
            bad(where, e, 'wrong-labels')
            return 1
        Z, A = whole.zenith.values, whole.azimuth.values
        SV = {q: getattr(whole, q).values for q in SCALARS}
        nat = ns == NAT
        if not (np.isnan(Z[nat]).all() and np.isnan(A[nat]).all() and all(np.isnan(SV[q][nat]).all() for q in SCALARS)):
            bad(where, 'lost instants have values')
        gone = np.isnan(Z[~nat]) | np.isnan(A[~nat])
        if gone.any():
            bad(where, f'{int(gone.sum())} observations that were not lost have no position')
        calls = 1
        fire('large-batch')
        cuts = [0] + b['tcuts'] + [K]
        for a, c in zip(cuts, cuts[1:]):
            s = slice(a, c)
            sw = fn(t[s], lat[s] if uc == 'transect' else lat, lon[s] if uc == 'transect' else lon, **kw)
            calls += 1
            ok = same(sw.zenith.values, sw.azimuth.values, Z[s], A[s])
            if not ok.all():
                ix = tuple(int(q) for q in np.argwhere(~ok)[0])
                bad(where, f'{int((~ok).sum())} of {ok.size} positions differ when only instants {a}..{c} are asked for, '
                    f'first at {ix}: ({sw.zenith.values[ix]}, {sw.azimuth.values[ix]}) and '
                    f'({Z[s][ix]}, {A[s][ix]})')
                break
            for q in SCALARS:
                g, v = getattr(sw, q).values, SV[q][s]
                if not ((np.abs(g - v) <= (1e-6 if q == 'ecf' else TOL_DEG)) | (np.isnan(g) & np.isnan(v))).all():
                    bad(where, f'{q} differs when only instants {a}..{c} are asked for')
        # single observations: corners, near powers of two, anywhere
        flat = Z.size
        spots = {0, flat - 1, flat // 2} | {int(rs.randint(flat)) for _ in range(8)}
        for p in range(8, 21):
            if 2**p < flat and rs.rand() < .4:
                spots.add(min(flat - 1, 2**p + rs.randint(-1, 2)))
        for s in sorted(spots):
            ix = np.unravel_index(s, Z.shape)
            if nat[ix[0]]:
                continue
            y = lat[ix[0] if uc == 'transect' else ix[1]]
            x = lon[ix[0] if uc == 'transect' else ix[-1]]
            sw = sunwhere.sites(t[ix[0]:ix[0] + 1], float(y), float(x), **kw)
            calls += 1
            if not same(Z[ix], A[ix], sw.zenith.values[0, 0], sw.azimuth.values[0, 0]):
                bad(where, f'observation {tuple(map(int, ix))} is ({Z[ix]}, {A[ix]}) in the batch and '
                    f'({sw.zenith.values[0, 0]}, {sw.azimuth.values[0, 0]}) alone')
                break
            for q in SCALARS:
                g, v = float(SV[q][ix[0]]), float(getattr(sw, q).values[0])
                if abs(g - v) > (1e-6 if q == 'ecf' else TOL_DEG):
                    bad(where, f'{q} of instant {int(ix[0])} is {g} in the batch and {v} alone')
                    return calls
        return calls

    def run(self, sc, timeout=60.0, capture=False):
        out = forkrun.run(lambda: self.child(sc), timeout)
        rep = {'viol': out['viol'], 'fired': out['fired'], 'fired_at': [['worker-died', x] for x in out['died']],
               'switches': 0, 'points': out['calls'], 'trace': '', 'sites': [], 'stats': {'calls': out['calls']}}
        rep['fp'] = _rng.digest([sc['alg'], sc['eng'], sc.get('plans'), sc.get('big')])
        rep['nontrivial'] = bool(out['fired'])
        rep['digest'] = _rng.digest([out['calls'], out['fired'], out['died'], out['viol']])
        rep['sample'] = {'backend': [sc['alg'], sc['eng']], 'big': sc.get('big'),
                         'plan': [{k: w[k] for k in w if k != 'form'} for w in sc['plans'][0]['msgs'][:2]] if sc.get('plans') else None}
        rep['probes'] = {}
        for p in sc.get('plans', ()):
            rep['probes'][p['uc']] = rep['probes'].get(p['uc'], 0) + 1
        return rep

    def shrink(self, sc):
        if sc.get('big'):
            b = sc['big']
            for k in ('nat', 'shuffle'):
                if b.get(k):
                    yield dict(sc, big=dict(b, **{k: False}))
            for c in chunks_removed(b['tcuts']):
                yield dict(sc, big=dict(b, tcuts=c))
            for k in ('K', 'J', 'I'):
                if b.get(k, 1) > 1:
                    v = b[k] // 2
                    nb = dict(b, **{k: v})
                    nb['tcuts'] = [x for x in b['tcuts'] if x < nb['K']]
                    yield dict(sc, big=nb)
            return
        for c in chunks_removed(sc['plans'], 1):
            yield dict(sc, plans=c)
        for i, p in enumerate(sc['plans']):
            def put(ms, i=i, p=p):
                return dict(sc, plans=sc['plans'][:i] + [dict(p, msgs=ms)] + sc['plans'][i + 1:])
            for c in chunks_removed(p['msgs'], 1):
                yield put(c)
            for j, w in enumerate(p['msgs']):
                for k in ('die', 'lost_t', 'lost_p', 'lost_la', 'lost_lo', 'scalar', 'form', 'pform'):
                    if w.get(k):
                        yield put(p['msgs'][:j] + [{a: b for a, b in w.items() if a != k}] + p['msgs'][j + 1:])
                dims = [('t', 'p')] if p['uc'] == 'transect' else [('t',), *((k,) for k in ('p', 'la', 'lo') if k in w)]
                for ks in dims:
                    for keep in chunks_removed(list(range(len(w[ks[0]]))), 1) if w[ks[0]] else ():
                        n = dict(w)
                        mp = {o: q for q, o in enumerate(keep)}
                        for k in ks:
                            n[k] = [w[k][q] for q in keep]
                            if w.get('lost_' + k):
                                n['lost_' + k] = [mp[q] for q in w['lost_' + k] if q in mp]
                        yield put(p['msgs'][:j] + [n] + p['msgs'][j + 1:])
        for j, q in enumerate(sc['P']):
            if isinstance(q, dict):
                yield dict(sc, P=sc['P'][:j] + [[45., 0.]] + sc['P'][j + 1:])
                if q['off'] != [0., 0.]:
                    yield dict(sc, P=sc['P'][:j] + [dict(q, off=[0., 0.])] + sc['P'][j + 1:])
        if sc.get('sub'):
            yield {k: v for k, v in sc.items() if k != 'sub'}
        if sc['refr']:
            yield dict(sc, refr=False)
