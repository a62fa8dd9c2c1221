"""C17: 'sunwhere at now' reports the true present instant on any machine."""
import datetime as dtm
import math
import os
import re
import shutil
import tempfile
import zoneinfo

import numpy as np

from .. import clisim, forkrun, rng as _rng, stack
from . import c08

NS = 10**9
DAY = 86400
ZONES = ['UTC', 'Europe/Madrid', 'America/New_York', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Pacific/Apia', 'Africa/Casablanca',
         'America/St_Johns', 'Europe/Dublin', 'Antarctica/Troll', 'Pacific/Chatham', 'Asia/Tehran', 'America/Sao_Paulo', 'Asia/Kolkata',
         'Etc/GMT+12', 'Pacific/Kiritimati', 'America/Havana', 'Asia/Gaza']
FIXED = {'+05:30': 19800, '-03:00': -10800, 'UTC+02:00': 7200, 'UTC-09:30': -34200, '+14:00': 50400}
MACHINE = ['UTC', 'Europe/Madrid', 'America/New_York', 'Asia/Kathmandu', 'Pacific/Apia', 'Australia/Lord_Howe', 'XXX-14', 'YYY+11:30',
           'bad/zone', 'Africa/Casablanca', 'EST5EDT,M3.2.0,M11.1.0', None]
ALGS = ['psa', 'nrel', 'iqbal', 'soltrack']
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November', 'December']
DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
_EPOCH = dtm.datetime(1970, 1, 1)


def zone_offset(zone, s):
    """(offset in seconds, name or None) of the zone at s (seconds since 1970)."""
    if zone in FIXED:
        return FIXED[zone], None
    if zone.startswith('dateutil/'):        # dateutil knows no changes after 2037
        import dateutil.tz
        z = dateutil.tz.gettz(zone[9:])
    else:
        z = zoneinfo.ZoneInfo(zone)
    t = (_EPOCH + dtm.timedelta(seconds=s)).replace(tzinfo=dtm.timezone.utc).astimezone(z)
    return int(t.utcoffset().total_seconds()), t.tzname()


def own_ephemeris(s, lat, lon):
    """Unit vector of the sun (south, west, up), declination, equation of time (min), distance: low precision formulae
    of the Astronomical Almanac, independent of the package."""
    n = (s - 946728000) / 86400.
    g = math.radians((357.528 + .9856003 * n) % 360)
    q = (280.460 + .9856474 * n) % 360
    lam = math.radians(q + 1.915 * math.sin(g) + .020 * math.sin(2 * g))
    eps = math.radians(23.439 - 4e-7 * n)
    ra = math.degrees(math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam))) % 360
    dec = math.asin(math.sin(eps) * math.sin(lam))
    r = 1.00014 - .01671 * math.cos(g) - .00014 * math.cos(2 * g)
    gmst = (280.46061837 + 360.98564736629 * n) % 360
    h = math.radians(gmst + lon - ra)
    p = math.radians(lat)
    up = math.sin(p) * math.sin(dec) + math.cos(p) * math.cos(dec) * math.cos(h)
    south = math.sin(p) * math.cos(dec) * math.cos(h) - math.cos(p) * math.sin(dec)
    west = math.cos(dec) * math.sin(h)
    eot = ((q - ra + 180) % 360 - 180) * 4
    return (south, west, up), math.degrees(dec), eot, r


def place(r):
    def deg(v, lim):
        return r.choice([f'{v:.4f}', f'{v:.1f}', f'{v:.0f}', f'{v:.6f}', repr(v)])
    k = r.random()
    lat = r.choice([90., 89.9, 66.6, 80., 69.5, 0.]) if k < .35 else r.uniform(0, 90)
    lon = r.choice([0., 179.999, 180.]) if r.random() < .15 else r.uniform(0, 180)
    ns, ew = r.choice('NSns'), r.choice('EWew')
    slat, slon = deg(lat, 90), deg(lon, 180)
    if float(slat) > 90:
        slat = '90'
    if float(slon) > 180 or (float(slon) == 180 and ew in 'Ee'):
        slon = '179.5'
    return slat + ns, slon + ew


def number(s):
    return (1 if s[-1] in 'NnEe' else -1) * float(s[:-1])


class Prop:
    ID = 'C17'

    def prepare(self):
        stack.bring_up(locks=False, cli=True)
        import sunwhere._cli.main   # noqa: F401
        self.refs = {}

    def gen(self, r, i, tier):
        zone = r.choice(ZONES) if r.random() < .8 else r.choice(list(FIXED) + ['dateutil/Europe/Madrid', 'utc'])
        machine = r.choice(MACHINE)
        k = r.random()
        if k < .55:
            src = zone if zone in ZONES and r.random() < .7 else (machine if machine in ZONES else zone)
            tr = c08.transitions(src) if src in ZONES and src in c08.ZONES else []
            if tr:
                s = r.choice(tr) + r.choice([-3600, -1, 0, 0, 1, 1800, 3599, 3600, 7200, -7200, r.randrange(-9000, 9000)])
            else:
                s = r.randrange(946684800, 2082758400)
        elif k < .8:
            s = r.randrange(946684800, 2082758400) // DAY * DAY + r.choice([0, -1, 1, 43200, r.randrange(DAY)])
        else:
            s = r.choice([1, 86399, 951782399, 951782400, 1709164799, 1735689599, 2**31 - 1, 2**31, 2**31 + 1, 2**32, 4102444799, 1230768000,
                          r.randrange(86400 * 3, 2**32)])
        c = {'base': s * NS + r.choice([0, 1, 499999999, 500000000, 999999999, 999999, r.randrange(NS)]),
             'step': r.choice([0, 1, 1000, 10**6, NS, 3600 * NS, -NS, 60 * NS]), 'jumps': []}
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            c['jumps'].append([r.choice([1, 1, 1, 2, 2, 3, 4, 6]), r.choice([-1, 1]) * r.choice([NS, 60 * NS, 3600 * NS, DAY * NS, 180 * DAY * NS])])
        lat, lon = place(r)
        sc = {'zone': zone, 'tz': machine, 'clock': c, 'lat': lat, 'lon': lon, 'alg': r.choice(ALGS), 'refr': r.random() < .6,
              'form': r.choice(['now', 'now', 'default'])}
        if r.random() < .06:
            sc['real'] = True
            sc['clock'] = {'base': c['base'], 'step': 0, 'jumps': []}
            sc['locale'] = r.choice([None, None, 'C', 'C.UTF-8', 'de_DE.UTF-8', 'tr_TR.UTF-8', 'fa_IR.UTF-8'])
        return sc

    def args(self, sc):
        a = ['at']
        if sc['form'] == 'now':
            a += ['now', sc['lat'], sc['lon']]
        a += ['-z', sc['zone'], '-a', sc['alg']] + ([] if sc['refr'] else ['--no-refraction'])
        return a

    def run(self, sc, timeout=60., capture=False):
        d = tempfile.mkdtemp(prefix='c17-', dir=os.environ['DST_SCRATCH'])
        node = {'tz': sc['tz'], 'clock': sc['clock'], 'locale': sc.get('locale')}
        try:
            rep = (clisim.run_real if sc.get('real') else clisim.run_cli)(self.args(sc), d, node)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        reads = 1 if sc.get('real') else max(1, rep['reads'])
        moments = sorted({clisim.reading(sc['clock'], k) // NS for k in range(min(reads, 500))})
        viol = []
        out = rep['out'].decode('utf-8', 'replace')
        rows = clisim.parse_table(out)
        why = None
        if rep['code'] != 0 or rows is None:
            why = ('no-answer', f'exit {rep["code"]}, {(out + rep["err"].decode("utf-8", "replace")).strip()[-300:]}')
        else:
            es = []
            for s in moments:
                e = self.differs(rows, sc, s)
                if e is None:
                    es = None
                    break
                es.append(f'[{_EPOCH + dtm.timedelta(seconds=s)} UTC] {e}')
            if es is not None:
                why = ('wrong-answer', f'shown {rows.get("Date")} {rows.get("Time")}; ' + ' / '.join(es[:2]))
        if why:
            viol.append({'class': why[0], 'where': f'zone {sc["zone"]}, {sc["alg"]}', 'detail': why[1]})
        fired = {'clock-jump': sum(at < reads for at, _ in sc['clock']['jumps'])} if sc['clock']['jumps'] else {}
        if sc['tz'] != 'UTC':
            fired['machine-zone'] = 1
        if sc.get('locale'):
            fired['locale'] = 1
        z = zone_offset(sc['zone'], moments[0]) if sc['zone'] != 'utc' else (0, 'UTC')
        rp = {'viol': viol, 'fired': {k: v for k, v in fired.items() if v}, 'fired_at': [], 'switches': 0, 'points': reads, 'trace': '', 'sites': [],
              'stats': {'invocations': 1}, 'sim_time': float(sum(abs(b) for _, b in sc['clock']['jumps']) / NS),
              'fp': _rng.digest([sc]), 'nontrivial': True, 'digest': _rng.digest([rows and sorted(rows.items()), rep['code'], reads]),
              'sample': {a: sc[a] for a in ('zone', 'tz', 'clock', 'lat', 'lon', 'alg')},
              'probes': {'fresh-interpreter': int(bool(sc.get('real'))), 'sun-does-not-set': int(bool(rows) and rows.get('Sunrise(UTC)', '').startswith('--')),
                         'near-transition': int(self.near(sc['zone'], moments[0])), 'offset-not-0': int(z[0] != 0)}}
        return rp

    @staticmethod
    def near(zone, s):
        if zone in FIXED or zone == 'utc':
            return False
        return zone_offset(zone, s - 7200)[0] != zone_offset(zone, s + 7200)[0]

    def reference(self, s, lat, lon, alg, refr):
        key = (s, lat, lon, alg, refr)
        if key not in self.refs:
            if len(self.refs) > 2000:
                self.refs.clear()

            def child():
                import sunwhere
                sw = sunwhere.sites([np.datetime64(s, 's')], lat, lon, algorithm=alg, refraction=refr)
                f = lambda a: float(np.array(a.values).ravel()[0])     # noqa: E731
                t = lambda a: int(np.array(a.values).ravel()[0].astype('datetime64[ns]').astype('int64'))      # noqa: E731
                return {'dec': f(sw.dec), 'dist': 1 / f(sw.ecf)**.5, 'sza': f(sw.sza), 'elev': f(sw.elevation), 'saa': f(sw.saa), 'eot': f(sw.eot),
                        'sr': t(sw.sunrise(units='utc')), 'ss': t(sw.sunset(units='utc'))}
            self.refs[key] = forkrun.run(child)
        return self.refs[key]

    def names(self, sc, local):
        if sc.get('locale') in (None, 'C', 'C.UTF-8'):
            return DAYS[local.weekday()], f'{local.day:02d} {MONTHS[local.month - 1]} {local.year}'

        def child():
            import locale
            locale.setlocale(locale.LC_TIME, sc['locale'])
            return local.strftime('%A').capitalize(), ' '.join(x.capitalize() for x in local.strftime('%d %B %Y').split())
        return forkrun.run(child)

    def differs(self, rows, sc, s):
        zone = sc['zone']
        off, zname = zone_offset(zone, s) if zone != 'utc' else (0, 'UTC')
        local = _EPOCH + dtm.timedelta(seconds=s + off)
        lat, lon = (number(sc['lat']), number(sc['lon'])) if sc['form'] == 'now' else (36.949, -3.822)
        for n in clisim.ROWS[:12] + [f'Sunrise({zone})', f'Sunset({zone})', clisim.ROWS[-1]]:
            if n not in rows:
                return f'there is no row {n}'
        day, date = self.names(sc, local)
        if rows['Day of week'] != day:
            return f'day {rows["Day of week"]}, not {day}'
        if rows['Date'] != date:
            return f'date {rows["Date"]}, not {date}'
        m = re.fullmatch(r'(\d\d:\d\d:\d\d)\((.*)\)', rows['Time'])
        if not m or m.group(1) != f'{local:%H:%M:%S}':
            return f'time {rows["Time"]}, not {local:%H:%M:%S}'
        if zname is not None and m.group(2) != zname:
            return f'zone {m.group(2)}, not {zname}'
        R = self.reference(s, lat, lon, sc['alg'], sc['refr'])

        def num(row):
            x = re.match(r'-?[\d.]+|nan', rows[row])
            return float(x.group(0)) if x else None
        for row, w in (('Latitude', lat), ('Longitude', lon), ('Declination', R['dec']), ('Sun-Earth distance', R['dist']), ('Zenith', R['sza']),
                       ('Elevation', R['elev']), ('Azimuth (0\u00b0 south)', R['saa'])):
            g = num(row)
            if g is None or (math.isnan(g) != math.isnan(w)):
                return f'{row} is {rows[row]}, not {w:.4f}'
            dd = abs(g - w) if not row.startswith('Az') else abs((g - w + 180) % 360 - 180)
            if dd > 1e-4:
                return f'{row} is {rows[row]}, not {w:.4f}'
        nat = np.datetime64('NaT').astype('int64')
        for row, w in (('Sunrise', R['sr']), ('Sunset', R['ss'])):
            if w == nat:
                ok_u = ok_l = {'--:--:--'}
                if re.search(r'\d', rows[f'{row}(UTC)']) or re.search(r'\d', rows[f'{row}({zone})']):
                    return f'{row} is {rows[f"{row}(UTC)"]} where there is none'
                continue
            u = w // NS
            ok_u = {self.hms(u + e) for e in (-1, 0, 1)}
            offs = {off, zone_offset(zone, u)[0] if zone != 'utc' else 0}
            ok_l = {self.hms(u + o + e) for o in offs for e in (-1, 0, 1)}
            if rows[f'{row}(UTC)'] not in ok_u:
                return f'{row}(UTC) is {rows[f"{row}(UTC)"]}, not {self.hms(u)}'
            if rows[f'{row}({zone})'] not in ok_l:
                return f'{row}({zone}) is {rows[f"{row}({zone})"]}, not {self.hms(u + off)}'
        m = re.fullmatch(r'(-?)(\d+):(\d+\.\d) min', rows['Equation of time'])
        if not m or float(m.group(3)) >= 60:
            return f'equation of time is {rows["Equation of time"]}'
        e = (float(m.group(2)) + float(m.group(3)) / 60) * (-1 if m.group(1) else 1)
        if abs(e - R['eot']) * 60 > .0501:
            return f'equation of time is {rows["Equation of time"]}, not {R["eot"] * 60:.2f} s'
        return self.implausible(num, e, s, lat, lon, sc)

    @staticmethod
    def implausible(num, eot, s, lat, lon, sc):
        """The sun must be about where simple astronomy puts it at that instant."""
        if not 0 <= s <= 4102444800:
            return None
        (south, west, up), dec, e, dist = own_ephemeris(s, lat, lon)
        tol = 2. if sc['alg'] == 'iqbal' else .25
        z, a = num('Zenith'), num('Azimuth (0\u00b0 south)')
        if not (math.isnan(z) or math.isnan(a)):
            z, a = math.radians(z), math.radians(a)
            dot = south * math.sin(z) * math.cos(a) + west * math.sin(z) * math.sin(a) + up * math.cos(z)
            ang = math.degrees(math.acos(max(-1., min(1., dot))))
            if ang > tol + (.8 if sc['refr'] and up < .35 else 0.):
                return f'the sun is {ang:.2f} degrees away from where it is at that instant'
        if abs(num('Declination') - dec) > tol:
            return f'declination {num("Declination")}, about {dec:.2f} expected'
        if abs(eot - e) > (1.5 if sc['alg'] == 'iqbal' else .5):
            return f'equation of time {eot:.2f}, about {e:.2f} expected'
        if abs(num('Sun-Earth distance') - dist) > .003:
            return f'distance {num("Sun-Earth distance")}, about {dist:.4f} expected'
        return None

    @staticmethod
    def hms(s):
        return (_EPOCH + dtm.timedelta(seconds=int(s))).strftime('%H:%M:%S')

    def shrink(self, sc):
        c = sc['clock']
        if sc.get('real'):
            yield {k: v for k, v in sc.items() if k not in ('real', 'locale')}
        for j in range(len(c['jumps'])):
            yield dict(sc, clock=dict(c, jumps=c['jumps'][:j] + c['jumps'][j + 1:]))
        if c['step']:
            yield dict(sc, clock=dict(c, step=0))
        if c['base'] % NS:
            yield dict(sc, clock=dict(c, base=c['base'] // NS * NS))
        if c['base'] % (60 * NS):
            yield dict(sc, clock=dict(c, base=c['base'] // (60 * NS) * 60 * NS))
        for k, v in (('tz', 'UTC'), ('zone', 'UTC'), ('lat', '40N'), ('lon', '0E'), ('alg', 'psa'), ('refr', True), ('form', 'now')):
            if sc[k] != v:
                yield dict(sc, **{k: v})
