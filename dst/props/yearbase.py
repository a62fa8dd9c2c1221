"""Loads of whole years through the cache directory."""
import os

import numpy as np

from .. import jplsim, rng as _rng
from . import jplbase

LOAD_CODES = ('load_jpl_ephemeris', 'get_jpl_ephemeris')


def year_minutes(y):
    y = int(y)
    m0 = int((jplsim.dtm.datetime(y, 1, 1) - jplsim.EPOCH).total_seconds() // 60)
    m1 = int((jplsim.dtm.datetime(y + 1, 1, 1) - jplsim.EPOCH).total_seconds() // 60)
    return np.arange(m0, m1, 12)


def judge(df, year, lon, lat):
    """None, or why df is not the complete year of that site."""
    t, az, ze, ecf = jplsim.table_of((float(lon), float(lat), 0.), year_minutes(year))
    for c in ('site_lon', 'site_lat', 'azimuth', 'zenith', 'ecf'):
        if c not in df:
            return f'there is no column {c}'
    if df.index.tz is None or str(df.index.tz) != 'UTC':
        return f'the index is in {df.index.tz}'
    got = np.array(df.index.tz_localize(None).values.astype('datetime64[ns]').astype('int64'))
    if len(got) != len(t):
        return f'{len(got)} rows of {len(t)}'
    if not np.array_equal(got, t):
        j = int(np.argmax(got != t))
        return f'row {j} is for {np.datetime64(int(got[j]), "ns")}, not {np.datetime64(int(t[j]), "ns")}'
    for c, v in (('site_lon', float(lon)), ('site_lat', float(lat))):
        x = np.array(df[c], dtype=float)
        if not (x == v).all():
            return f'{c} is {x[np.argmax(x != v)]}, not {v}'
    for c, w in (('azimuth', az), ('zenith', ze), ('ecf', ecf)):
        g = np.array(df[c], dtype=float)
        bad = ~(np.abs(g - w) <= 1e-9)
        if bad.any():
            j = int(np.argmax(bad))
            return f'{c} of {np.datetime64(int(t[j]), "ns")} is {g[j]}, not {w[j]} ({int(bad.sum())} rows differ)'
    return None


class YearProp(jplbase.JplProp):
    YEARS = (2023, 2024)

    def warm(self):
        d = self.scratch()
        try:
            r = jplsim.attempt(self.load(2023, 1., 2.), {'die': 10**9, 'die_in': LOAD_CODES}, os.path.join(d, 'w'), None, 240.)
            # if even this fails, the runs will tell
            self.wops, self.nlines, self.rops = max(60, r['disk']['wops']), max(600, r['lines']), max(40, r['disk']['rops'])
        finally:
            self.drop(d)

    @staticmethod
    def load(year, lon, lat):
        from sunwhere.utils.jpl_horizons import load_jpl_ephemeris
        return lambda: judge(load_jpl_ephemeris(year, lon, lat), year, lon, lat)

    def gen_plan(self, r, heavy=True):
        p = {'net': {'faults': [], 'addrs': r.choice([1, 1, 2]), 'keep': r.random() < .7,
                     'framing': r.choice(['cl', 'cl', 'chunked', 'close']), 'seg': 65536, 'chunk': 16384}}
        k = r.random()
        if k < .5:
            n = r.choice([0, 0, 1, 2, 5, 11, r.randrange(13)])
            p['net']['faults'] = [{}] * n + [jplbase.gen_net_fault(r, ('damage-na',)) for _ in range(r.choice([1, 1, 2, 3]))]
            for f in p['net']['faults']:
                if f.get('kind') == 'damage-na':
                    f.update(kind='damage', what='na', arg=r.randrange(1001))
            if r.random() < .6:
                p['net']['tail'] = p['net']['faults'][-1]
        if k > .4:
            q = r.random()
            if q < .55:
                p['disk'] = jplbase.gen_disk(r, self.wops)
                if r.random() < .35:            # around the end: the table of the year, its renaming, the clearing up
                    for f in p['disk']['faults']:
                        f['op'] = max(1, self.wops - r.randrange(22))
                if 'space' in p['disk']:
                    p['disk']['space'] = r.choice([r.randrange(400000), r.randrange(4_000_000), r.randrange(7_000_000)])
            elif q < .7:
                p['disk'] = {'faults': [{'read': True, 'op': 1 + r.randrange(self.rops + 2), 'kind': 'err', 'errno': 'EIO'}]}
            else:
                p.update(die=1 + r.randrange(self.nlines + 3), die_in=list(LOAD_CODES))
        if r.random() < .3:
            p['loss'] = r.choice([0, 0, 500, 999, r.randrange(1000)])
        if r.random() < .2:
            p['tz'] = r.choice(jplbase.ZONES)
        return p

    def step(self, root, side, st, timeout, fired):
        res = jplsim.attempt(self.load(st['year'], st['lon'], st['lat']), st.get('plan') or {}, root, None, timeout)
        self.tally(fired, st.get('plan') or {}, res)
        return res

    def plan_shrinks(self, p):
        yield from jplbase.simpler_plan(p)
        if p:
            yield {}


DOWN = {'net': {'faults': [], 'tail': {'kind': 'connect', 'how': 'refused', 'all': True}}}
