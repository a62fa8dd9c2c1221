"""Call specifications: plain JSON descriptions of calls to the library, how to
materialise their arguments, how to run them, and families of specifications
that lie close to one another (what caches, memos and shared buffers confuse)."""
import copy
import datetime as _dt

import numpy as np
import pandas as pd

ALGS = [('psa', 'numpy'), ('psa', 'numexpr'), ('soltrack', 'numpy'), ('soltrack', 'numexpr'),
        ('iqbal', 'numpy'), ('iqbal', 'numexpr'), ('nrel', 'numexpr')]
USECASES = ['sites', 'regular_grid', 'transect']
ZONES = ['UTC', 'Europe/Madrid', 'America/New_York', 'Asia/Kolkata', 'Australia/Lord_Howe',
         'Pacific/Apia', 'America/St_Johns', 'Asia/Kathmandu', 'Africa/Casablanca', 'America/Sao_Paulo']

RAW = ['latitude', 'longitude', 'times', 'times_utc', 'algorithm', 'engine', 'has_refraction',
       'usecase', 'timezone', 'ecf', 'eot', 'declination', 'zenith', 'azimuth']
DERIVED = [['true_solar_time'], ['local_standard_time'], ['dec'], ['sza'], ['elevation'], ['saa'], ['cosz'],
           ['eth'], ['eth', {'am_correction': 'perez_1990'}], ['eth', {'am_correction': 'skarveith_1998'}],
           ['eth', {'am_correction': 'gonzalez_and_calbo_1999', 'ISC': 1367.0}], ['eth', {'ISC': 1.0}],
           ['airmass'], ['airmass', {'parameterization': 'kasten_1965'}],
           ['airmass', {'parameterization': 'kasten_and_young_1989'}],
           ['airmass', {'parameterization': 'gueymard_2001'}],
           ['sunrise'], ['sunrise', {'units': 'rad'}], ['sunrise', {'units': 'tst'}],
           ['sunrise', {'units': 'utc'}], ['sunrise', {'units': 'local'}],
           ['sunset'], ['sunset', {'units': 'rad'}], ['sunset', {'units': 'tst'}],
           ['sunset', {'units': 'utc'}], ['sunset', {'units': 'local'}],
           ['daylight_length'], ['incidence', {'sfc_slope': 30., 'sfc_azimuth': 0.}],
           ['incidence', {'sfc_slope': 75., 'sfc_azimuth': -60.}]]
BAD_READS = [['eth', {'am_correction': 'nope'}], ['airmass', {'parameterization': 'nope'}],
             ['sunrise', {'units': 'nope'}], ['sunset', {'units': 'nope'}]]
METHODS = {'eth', 'airmass', 'sunrise', 'sunset', 'daylight_length', 'incidence'}


def read(sw, acc):
    name = acc[0]
    kw = acc[1] if len(acc) > 1 else {}
    if name in METHODS:
        return getattr(sw, name)(**kw)
    return getattr(sw, name)


def acc_name(acc):
    return acc[0] + (('(' + ','.join(f'{k}={v}' for k, v in sorted(acc[1].items())) + ')') if len(acc) > 1 else '')


# ---------------------------------------------------------------- instants

def instants_ns(t):
    """int64 UTC nanoseconds of a time description (NaT as int64 min)."""
    if 'ns' in t:
        a = np.array(t['ns'], dtype='int64')
    else:
        a = (np.int64(t['s']) + np.arange(t['n'], dtype='int64') * np.int64(t['d'])) * np.int64(10**9)
    a = a + np.int64(t.get('sub', 0))
    for i, sec in t.get('edit', ()):
        if i < a.size:
            a[i] = np.int64(sec) * np.int64(10**9)
    if t.get('perm') is not None:
        a = a[np.random.RandomState(t['perm']).permutation(a.size)]
    for i in t.get('nat', ()):
        if i < a.size:
            a[i] = np.iinfo('int64').min
    return a


def tzobj(name, impl):
    if name is None:
        return None
    if impl == 'pytz':
        import pytz
        return pytz.timezone(name)
    if impl == 'dateutil':
        import dateutil.tz
        return dateutil.tz.gettz(name)
    if impl == 'fixed':
        return _dt.timezone(_dt.timedelta(minutes=int(name)))
    if impl == 'utc':
        return _dt.timezone.utc
    import zoneinfo
    return zoneinfo.ZoneInfo(name)


def make_times(t):
    a = instants_ns(t).view('datetime64[ns]')
    form = t.get('form', 'npns')
    tz = tzobj(t.get('tz'), t.get('impl'))
    if tz is None:
        if form == 'npns':
            return a
        if form == 'nps':
            return a.astype('datetime64[s]')
        if form == 'npms':
            return a.astype('datetime64[ms]')
        if form == 'index':
            return pd.DatetimeIndex(a)
        if form == 'list_dt':
            return [x if x is pd.NaT else x.to_pydatetime(warn=False) for x in map(pd.Timestamp, a)]
        if form == 'list_ts':
            return [pd.Timestamp(x) for x in a]
        if form == 'list_str':
            return [str(x) for x in a.astype('datetime64[s]')]
        if form == 'scalar_dt':
            return pd.Timestamp(a[0]).to_pydatetime(warn=False)
        if form == 'scalar_np':
            return a[0]
        if form == 'scalar_ts':
            return pd.Timestamp(a[0])
        if form == 'scalar_str':
            return str(a[0].astype('datetime64[s]'))
        if form == 'obj':
            return np.array([x if x is pd.NaT else x.to_pydatetime(warn=False) for x in map(pd.Timestamp, a)], dtype=object)
        raise KeyError(form)
    idx = pd.DatetimeIndex(a).tz_localize('UTC').tz_convert(tz)
    if form in ('index', 'npns', 'nps', 'npms'):
        return idx
    if form in ('list_dt', 'obj', 'list_str'):
        return [x if x is pd.NaT else x.to_pydatetime(warn=False) for x in idx]
    if form == 'list_ts':
        return list(idx)
    if form == 'scalar_dt':
        return idx[0].to_pydatetime(warn=False)
    return idx[0]


def n_times(t):
    if t.get('form', '').startswith('scalar'):
        return 1
    return len(t['ns']) if 'ns' in t else t['n']


def coord_values(c):
    if 'v' in c:
        a = np.array(c['v'], dtype='float64')
    else:
        a = np.random.RandomState(c['seed']).uniform(c['lo'], c['hi'], c['n'])
        if 'dec' in c:
            a = np.round(a, c['dec'])
    for i, x in c.get('edit', ()):
        if i < a.size:
            a[i] = np.nan if x is None else x
    return a


def make_coord(c):
    a = coord_values(c)
    form = c.get('form', 'array')
    if form == 'array':
        return a
    if form == 'list':
        return a.tolist()
    if form == 'tuple':
        return tuple(a.tolist())
    if form == 'scalar':
        return float(a[0])
    if form == 'f32':
        return a.astype('float32')
    if form == 'int':
        return [int(x) for x in a]
    if form == 'noncontig':
        b = np.zeros((a.size, 2))
        b[:, 0] = a
        return b[:, 0]
    if form == 'readonly':
        a.setflags(write=False)
        return a
    raise KeyError(form)


def make_args(spec):
    return [make_times(spec['t']), make_coord(spec['lat']), make_coord(spec['lon'])]


def invoke(spec, args=None):
    """Run the call described by spec; returns whatever the library returns."""
    import sunwhere
    if spec.get('fn') == 'util':
        from sunwhere.utils import datetime as udt
        t, _, lon = make_args(spec) if args is None else args
        return getattr(udt, spec['name'])(t, lon)
    t, lat, lon = make_args(spec) if args is None else args
    kw = {}
    if spec.get('alg') is not None:
        kw['algorithm'] = spec['alg']
    if spec.get('eng') is not None:
        kw['engine'] = spec['eng']
    if spec.get('refr') is not None:
        kw['refraction'] = spec['refr']
    return getattr(sunwhere, spec['uc'])(t, lat, lon, **kw)


# ---------------------------------------------------------------- generators

Y2000 = 946684800


def gen_time(rng, n, simple=False):
    s = Y2000 + rng.randrange(0, 50 * 365 * 86400)
    t = {'s': s, 'd': rng.choice([1, 60, 600, 3600, 86400, 86400 * 30, -900]), 'n': n,
         'form': rng.choice(['npns', 'npns', 'index', 'nps', 'list_dt', 'list_ts', 'npms', 'obj'])}
    if simple:
        return t
    r = rng.random()
    if r < .2:
        t['tz'] = rng.choice(ZONES)
        t['impl'] = rng.choice(['pytz', 'zoneinfo', 'dateutil'])
        if t['impl'] == 'dateutil' and t['tz'] == 'UTC':
            t['impl'] = 'zoneinfo'
    elif r < .25:
        t['tz'], t['impl'] = str(rng.choice([-720, -210, 0, 330, 345, 840])), 'fixed'
    if rng.random() < .12 and n > 1:
        t['nat'] = sorted(rng.sample(range(n), min(n, rng.randint(1, 3))))
    if rng.random() < .1:
        t['sub'] = rng.choice([1, 999999999, 500000000])
    if n > 2 and rng.random() < .1:
        t['perm'] = rng.randrange(10**6)
    return t


def gen_coord(rng, n, lo, hi):
    if n <= 12 and rng.random() < .7:
        c = {'v': [round(rng.uniform(lo, hi), rng.choice([0, 1, 3, 6])) for _ in range(n)]}
        if rng.random() < .1:
            c['v'][0] = rng.choice([0.0, -1.0, -2.0, 1.0, lo])
        c['v'] = [min(max(x, lo), hi) for x in c['v']]
    else:
        c = {'seed': rng.randrange(10**6), 'n': n, 'lo': lo, 'hi': hi}
    c['form'] = rng.choice(['array', 'array', 'list', 'tuple', 'noncontig', 'f32'])
    if n == 1 and rng.random() < .4:
        c['form'] = 'scalar'
    return c


def gen_spec(rng, size='small', usecase=None, alg=None):
    uc = usecase or rng.choice(USECASES)
    al, en = alg or rng.choice(ALGS)
    if size == 'small':
        nt, ns = rng.randint(1, 8), rng.randint(1, 6)
    elif size == 'tiny':
        nt, ns = rng.randint(1, 3), rng.randint(1, 2)
    elif size == 'medium':
        nt, ns = rng.randint(30, 300), rng.randint(5, 40)
    else:
        nt, ns = rng.randint(1001, 2500), rng.choice([1, 2, 12])
    if uc == 'transect':
        ns = nt
    lat, lon = gen_coord(rng, ns, -90, 90), gen_coord(rng, ns, -180, 179.99)
    if uc == 'regular_grid':
        n2 = rng.randint(1, 6)
        lon = gen_coord(rng, n2, -180, 179.99)
    spec = {'uc': uc, 'alg': al, 'eng': en, 'refr': rng.random() < .6,
            't': gen_time(rng, nt), 'lat': lat, 'lon': lon}
    if nt == 1 and rng.random() < .4 and uc != 'transect':
        spec['t']['form'] = rng.choice(['scalar_dt', 'scalar_np', 'scalar_ts', 'scalar_str'])
        spec['t'].pop('nat', None)
    if rng.random() < .08:
        spec['eng'] = None if al in ('psa', 'soltrack', 'iqbal') else 'numexpr'
    if rng.random() < .05:
        spec['refr'] = None
    return spec


def _shift_coord(rng, c, lo, hi, delta=None):
    c = copy.deepcopy(c)
    n = len(c['v']) if 'v' in c else c['n']
    vals = coord_values(c)
    i = rng.randrange(n)
    d = delta if delta is not None else rng.choice([1e-5, 1e-4, 1e-3, 1e-2, .5, 7.]) * rng.choice([-1, 1])
    x = vals[i] + d
    if not lo <= x <= hi:
        x = vals[i] - d
    x = min(max(x, lo), hi)
    c.setdefault('edit', []).append([i, float(x)])
    if c['form'] in ('f32', 'int'):
        c['form'] = 'array'
    return c


VARIANTS = ['interior', 'shift1', 'shiftday', 'shiftyear', 'shifthour', 'lat', 'lon', 'swap', 'perm', 'refr', 'eng',
            'alg', 'uc', 'tz', 'nat', 'nanlat', 'sign', 'mid', 'sub', 'form', 'revt', 'both', 'same', 'shrink',
            'allvals', 'lonrev', 'hash']


def variant(rng, base, kind=None):
    """A specification close to base in one respect."""
    k = kind or rng.choice(VARIANTS)
    s = copy.deepcopy(base)
    t = s['t']
    n = n_times(t)
    if 'ns' in t and k in ('interior', 'mid', 'shift1', 'shiftday', 'shiftyear', 'shifthour', 'allvals'):
        k = 'lat'
    if k in ('interior', 'mid') and n >= 3:
        i = n // 2 if k == 'mid' else rng.randrange(1, n - 1)
        base_s = int(t['s'] + i * t['d'])
        t.setdefault('edit', []).append([i, base_s + rng.choice([7, 1800, 86400 * 50, -3601])])
    elif k == 'shift1':
        t['s'] += rng.choice([1, -1])
    elif k == 'shifthour':
        t['s'] += rng.choice([3600, -7200])
    elif k == 'shiftday':
        t['s'] += 86400 * rng.choice([1, 7, -1])
    elif k == 'shiftyear':
        t['s'] += 86400 * rng.choice([365, 366, 1461])
    elif k == 'allvals':
        t['s'] += rng.randrange(3600, 86400 * 200)
        s['lat'] = _shift_coord(rng, s['lat'], -90, 90, 11.)
    elif k in ('lat', 'sub', 'both'):
        s['lat'] = _shift_coord(rng, s['lat'], -90, 90)
        if k == 'both':
            s['lon'] = _shift_coord(rng, s['lon'], -180, 179.99)
    elif k == 'lon':
        s['lon'] = _shift_coord(rng, s['lon'], -180, 179.99)
    elif k == 'swap':
        lat = np.clip(coord_values(s['lon']), -90, 90)
        lon = coord_values(s['lat'])
        if lat.size <= 50 and lon.size <= 50 and not (np.isnan(lat).any() or np.isnan(lon).any()):
            s['lat'], s['lon'] = {'v': lat.tolist(), 'form': 'array'}, {'v': lon.tolist(), 'form': 'array'}
    elif k in ('perm', 'lonrev'):
        for key in (('lat', 'lon') if k == 'perm' else ('lon',)):
            v = coord_values(s[key])
            if 1 < v.size <= 50 and not np.isnan(v).any():
                s[key] = {'v': v[::-1].tolist(), 'form': s[key]['form'] if s[key]['form'] != 'scalar' else 'list'}
    elif k == 'hash':
        v = coord_values(s['lat'])
        if v.size <= 50:
            v[0] = -1.0 if v[0] == -2.0 else -2.0
            s['lat'] = {'v': [None if np.isnan(x) else x for x in v.tolist()], 'form': 'array'}
            s['lat']['v'] = [0.0 if x is None else x for x in s['lat']['v']]
    elif k == 'sign':
        v = coord_values(s['lat'])
        if v.size <= 50 and not np.isnan(v).any():
            s['lat'] = {'v': (-v).tolist(), 'form': 'array'}
    elif k == 'refr':
        s['refr'] = not (s['refr'] if s['refr'] is not None else True)
    elif k == 'eng':
        if s['alg'] != 'nrel':
            s['eng'] = 'numpy' if s['eng'] in ('numexpr', None) else 'numexpr'
    elif k == 'alg':
        s['alg'], s['eng'] = rng.choice(ALGS)
    elif k == 'uc':
        nl, no = coord_values(s['lat']).size, coord_values(s['lon']).size
        opts = ['regular_grid'] if nl * no * n <= 20000 else []
        if nl == no:
            opts.append('sites')
            if nl == n:
                opts.append('transect')
        if opts:
            s['uc'] = rng.choice(opts)
    elif k == 'tz' and not t.get('form', '').startswith('scalar_str'):
        if t.get('tz'):
            t.pop('tz'), t.pop('impl')
        else:
            t['tz'], t['impl'] = rng.choice(ZONES[1:]), rng.choice(['pytz', 'zoneinfo'])
    elif k == 'nat' and n > 1:
        if t.get('nat'):
            t.pop('nat')
        else:
            t['nat'] = [rng.randrange(n)]
    elif k == 'nanlat':
        v = coord_values(s['lat'])
        if v.size > 1:
            s['lat'].setdefault('edit', []).append([rng.randrange(v.size), None])
    elif k == 'form':
        if n > 1 and not t.get('nat'):
            t['form'] = rng.choice(['npns', 'index', 'nps', 'list_dt', 'list_ts'])
        s['lat']['form'] = 'list' if s['lat']['form'] == 'array' else 'array'
    elif k == 'revt' and n > 1 and 'ns' not in t and not t.get('edit'):
        t['s'], t['d'] = t['s'] + (n - 1) * t['d'], -t['d']
    elif k == 'shrink' and s['uc'] != 'transect' and 'n' in t and t['n'] > 2:
        t['n'] -= 1
        t.pop('nat', None)
    return s


BAD = ['lat', 'lon180', 'alg', 'eng', 'shape', 'time', 'nrelnumpy', 'dim2']


def bad_variant(rng, base, kind=None):
    """A specification whose call must fail."""
    k = kind or rng.choice(BAD)
    s = copy.deepcopy(base)
    s['bad'] = True
    if k == 'lat':
        s['lat'] = {'v': coord_values(s['lat'])[:50].tolist(), 'form': 'list'}
        s['lat']['v'][-1] = 91.0
    elif k == 'lon180':
        s['lon'] = {'v': coord_values(s['lon'])[:50].tolist(), 'form': 'list'}
        s['lon']['v'][0] = 180.5
    elif k == 'alg':
        s['alg'] = 'nope'
    elif k == 'eng':
        s['eng'] = 'nope'
    elif k == 'nrelnumpy':
        s['alg'], s['eng'] = 'nrel', 'numpy'
    elif k == 'shape':
        s['uc'] = 'sites'
        v = coord_values(s['lat'])[:20].tolist()
        s['lat'] = {'v': v + [1.0], 'form': 'list'}
        s['lon'] = {'v': v, 'form': 'list'}
    elif k == 'time':
        s['t'] = {'s': 0, 'd': 1, 'n': 1, 'form': 'badstr'}
    elif k == 'dim2':
        s['lat'] = {'v': [1.0, 2.0], 'form': 'dim2'}
    return s


_orig_make_times, _orig_make_coord = make_times, make_coord


def make_times(t):  # noqa: F811
    if t.get('form') == 'badstr':
        return 'not a time'
    return _orig_make_times(t)


def make_coord(c):  # noqa: F811
    if c.get('form') == 'dim2':
        return np.array([c['v'], c['v']])
    return _orig_make_coord(c)


def util_family(rng, k):
    """Conversions between universal and true solar time, near each other, and ordinary calls at the same instants."""
    n = rng.choice([1, 2, 3, 4, 6, 12, 40])
    t = {'s': Y2000 + rng.randrange(0, 50 * 365 * 86400), 'd': rng.choice([60, 3600, 86400, 86400 * 30]), 'n': n,
         'form': rng.choice(['npns', 'npns', 'nps', 'npms', 'index', 'list_dt'])}
    m = rng.choice([1, 1, 2, 5])
    lon = {'v': [round(rng.uniform(-180, 179), rng.choice([0, 2, 6])) for _ in range(m)],
           'form': rng.choice(['list', 'array', 'tuple'] + (['scalar'] if m == 1 else []))}
    out = [{'fn': 'util', 'name': rng.choice(['true_solar_time', 'universal_time_coordinated']), 't': t,
            'lat': {'v': [0.], 'form': 'list'}, 'lon': lon, 'uc': 'util'}]
    while len(out) < k:
        src = copy.deepcopy(rng.choice([x for x in out if x.get('fn') == 'util']))
        x = rng.random()
        t = src['t']
        if x < .2:
            src['name'] = 'true_solar_time' if src['name'] != 'true_solar_time' else 'universal_time_coordinated'
        elif x < .45 and n >= 3:
            j = n // 2 if rng.random() < .5 else rng.randrange(1, n - 1)
            t.setdefault('edit', []).append([j, int(t['s'] + j * t['d']) + rng.choice([1800, 86400 * 50, -86400 * 30, -3601])])
        elif x < .6:
            t['s'] += rng.choice([3600, 86400, -86400 * 7, 86400 * 366, 1])
        elif x < .7:
            t['d'] += rng.choice([1, 60, 86400 * 3])
        elif x < .8:
            src['lon'] = _shift_coord(rng, src['lon'], -180, 179.99)
        elif x < .85:
            t['form'] = rng.choice(['npns', 'nps', 'npms', 'index', 'list_dt'])
        elif x < .92 and 'edit' not in t:
            t['s'], t['d'] = t['s'] + (n - 1) * t['d'], -t['d']
        else:
            c = gen_spec(rng, 'tiny', 'sites')
            c['t'] = t
            src = c
        out.append(src)
    return out


def gen_family(rng, k, size='small', focus=None, bad=0.0, utils=0.0):
    """k specifications: a base and near neighbours; focus=None draws one of several regimes."""
    if focus is None:
        focus = rng.random() < .75
    base = gen_spec(rng, size)
    out = [base]
    while len(out) < k:
        r = rng.random()
        if r < bad:
            out.append(bad_variant(rng, rng.choice(out)))
        elif r < bad + utils:
            src = base
            out.append({'fn': 'util', 'name': rng.choice(['true_solar_time', 'universal_time_coordinated']),
                        't': {'s': src['t'].get('s', Y2000) if 's' in src['t'] else Y2000, 'd': 3600,
                              'n': rng.randint(1, 4), 'form': 'npns'},
                        'lat': {'v': [0.], 'form': 'list'},
                        'lon': {'v': [round(rng.uniform(-180, 179), 2)], 'form': 'list'}, 'uc': 'util'})
        elif focus:
            src = rng.choice([x for x in out if x.get('fn') != 'util' and x['t'].get('form') != 'badstr'
                              and x['lat'].get('form') != 'dim2' and x['alg'] != 'nope'
                              and x['eng'] != 'nope' and not (x['alg'] == 'nrel' and x['eng'] == 'numpy')] or [base])
            out.append(variant(rng, src))
        else:
            out.append(gen_spec(rng, size))
    return out
