"""C18: the command line's exit status tells whether the answer was delivered."""
import datetime as dtm
import os
import re
import shutil
import tempfile
import zoneinfo

from .. import ambient, brokenimport, clisim, interrupt, rng as _rng, sched, stack    # noqa: F401
from . import c17

NS = 10**9
EXC = dict(brokenimport.EXC)
EXC.update({
    'ZeroDivisionError': lambda: ZeroDivisionError('division by zero'), 'EmptyValueError': lambda: ValueError(''),
    'EmptyRuntimeError': lambda: RuntimeError(), 'NotImplementedError': lambda: NotImplementedError(), 'ENOMEM': lambda: OSError(12, 'Cannot allocate memory'),
    'EPIPE': lambda: BrokenPipeError(32, 'Broken pipe'), 'Unicode': lambda: ValueError('\u00e1ngulo \u2554 \u592a\u967d'),
    'Markup': lambda: ValueError('[/bold] [red'), 'KeyboardInterrupt': lambda: KeyboardInterrupt(),
    'Percent': lambda: ValueError('%d {} {0}'), 'Long': lambda: ValueError('x' * 20000), 'EOFError': lambda: EOFError(),
})
# a value next to its name, as in a table (not the name in a line of source code)
VALUE = re.compile(r'(?:Zenith|Elevation|Azimuth \(0\S? ?south\)|Azimuth|Declination|Sun-Earth distance|Sunrise(?:\([^)\n]*\))?|'
                   r'Sunset(?:\([^)\n]*\))?|Equation of time)[ \t:=|\u2551\u2502?]+-?\d')
BAD_TIME = ['notatime', '2024-13-01', '2024-02-30', '2023-02-29 12:00', '25:61', '', ' ', 'NaT', 'nat', '2024-06-21 12:00 nowhere', 'now now',
            '2024-06-21 12:60:00', '--', '2024/06/31', 'NOW!', '[2024]', '2024-06-21;2024-06-22']
ODD_TIME = ['2024-06-21T12:00Z', '2024-06-21 12:00+02:00', '0001-01-01', '9999-12-31', '1677-09-21', '2262-04-12', '1e9', '20240621', '2024',
            'Now', 'today', 'nan', 'None', '2024-06-21 12', '21/06/2024', '06/21/24', '1700-01-01', '-500', '100000-01-01', 'NaN']
BAD_LAT = ['95N', '90.0001S', '40', '40X', 'N', 'abcN', 'nanN', 'infS', '1e3N', '40.5.5N', '40E', '4,5N', '40NN', 'N40', '40W', '40 ', '']
BAD_LON = ['180E', '180.5W', '200E', '3', '3X', 'W', 'abcE', 'nanE', 'infW', '1e9E', '3.8.2W', '10N', '3,8W', 'E3', '360W', '']
BAD_ALG = ['xx', '', ' ', 'psa ', 'spa', 'psa,nrel', '0', 'None', 'numexpr']
BAD_ZONE = ['Mars/Phobos', 'Europe/Madri', '', ' ', 'UTC+99:99', '../etc/passwd', 'GMT+25:00x', 'Local/Nowhere', '5', '\u00e9']
EXTRA = [['--bogus'], ['extra'], ['-z'], ['-a'], ['--algorithm'], ['--refraction=maybe'], ['-q']]
ENCODINGS = [('ascii', 'strict'), ('latin-1', 'strict'), ('cp1252', 'strict'), ('cp437', 'strict'), ('iso8859-15', 'strict'), ('utf-16', 'strict'),
             ('ascii', 'replace'), ('latin-1', 'ignore'), ('ascii', 'backslashreplace'), ('ascii', 'surrogateescape'), ('cp1253', 'strict'),
             ('utf-8', 'surrogateescape'), ('koi8-r', 'strict'), ('gb18030', 'strict')]
BACKEND = {'psa': 'ne_psa', 'soltrack': 'ne_soltrack', 'iqbal': 'ne_iqbal', 'nrel': 'ne_nrel'}


class Boom(interrupt.Die):
    """A library that fails at its n-th line with the given kind of error."""

    def __init__(self, n, kind):
        super().__init__(n)
        self.kind = kind
        self.codes = [c for c in sched.CODES if os.sep + '_cli' + os.sep not in c.co_filename]

    def _l(self, code, line):
        try:
            super()._l(code, line)
        except interrupt.WorkerDied:
            raise EXC[self.kind]() from None

    def report(self):
        return {'fired': self.fired, 'where': self.where, 'lines': self.k}


class Broken:
    def __init__(self, faults):
        self.fi = brokenimport.install(faults)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def report(self):
        return {'fired': bool(self.fi.fired), 'where': str(self.fi.fired[:3]), 'lines': 0}


class Prop:
    ID = 'C18'

    def prepare(self):
        stack.bring_up(locks=False, cli=True)
        import sunwhere._cli.main   # noqa: F401
        sched.discover()
        self.cli = c17.Prop()
        self.cli.refs = {}
        self.clean = {}
        d = tempfile.mkdtemp(prefix='c18p-', dir=os.environ['DST_SCRATCH'])
        self.lines = {}
        for alg in c17.ALGS:
            rep = clisim.run_cli(['at', '2024-06-21 12:00', '-a', alg], d, {}, None, lambda: Boom(10**9, 'ValueError'))
            self.lines[alg] = max(20, rep['ctx']['lines'])
        shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------ generation
    def gen(self, r, i, tier):
        zone = r.choice(c17.ZONES)
        lat, lon = c17.place(r)
        s = r.randrange(946684800, 2082758400)
        sc = {'zone': zone, 'lat': lat, 'lon': lon, 'alg': r.choice(c17.ALGS), 'refr': r.random() < .6, 'form': 'now', 'tz': r.choice(['UTC', 'Europe/Madrid']),
              's': s, 'time': 'now', 'want': 'ok', 'extra': [], 'sink': {'kind': 'file'}, 'fault': None, 'err': 'ok', 'columns': r.choice([80, 80, 20, 200])}
        if r.random() < .5:
            t = r.choice(['%Y-%m-%d %H:%M:%S', '%Y-%m-%dT%H:%M:%S', '%Y-%m-%d', '%Y-%m-%d %H:%M', '%Y%m%dT%H%M%S'])
            w = (dtm.datetime(1970, 1, 1) + dtm.timedelta(seconds=s)).strftime(t)
            loc = dtm.datetime.strptime(w, t)
            z = zoneinfo.ZoneInfo(zone)
            a = [loc.replace(tzinfo=z, fold=f).utcoffset() for f in (0, 1)]
            sc['time'] = w
            sc['s'] = int(((loc - dtm.datetime(1970, 1, 1)) - a[0]).total_seconds())
            if a[0] != a[1]:
                sc['want'] = 'any'
        k = r.random()
        what = []
        if k < .25 or k > .92:
            what.append('arg')
        if .25 <= k < .6 or k > .92:
            what.append('sink')
        if .6 <= k < .87 or k > .96:
            what.append('calc')
        for w in what:
            getattr(self, 'gen_' + w)(r, sc)
        if r.random() < .08:
            sc['err'] = r.choice(['closed', 'full', 'full'])
        if r.random() < .1 and not sc['fault'] and sc['sink'].get('disk') is None:
            sc['real'] = True
            sc['opt'] = r.choice(['', '', '1', '2'])
        if what == ['arg'] and (sc['lat'] in BAD_LAT or sc['lon'] in BAD_LON) and r.random() < .3:
            # coordinates must be checked by an optimised interpreter too
            sc['real'], sc['opt'] = True, r.choice(['1', '2'])
        return sc

    def gen_arg(self, r, sc):
        k = r.choice(['time', 'time', 'odd', 'lat', 'lon', 'alg', 'zone', 'extra', 'gap'])
        sc['want'] = 'bad'
        if k == 'time':
            sc['time'] = r.choice(BAD_TIME)
            if sc['time'] == '--':
                sc['want'] = 'any'
        elif k == 'odd':
            sc['time'], sc['want'] = r.choice(ODD_TIME), 'any'
        elif k == 'lat':
            sc['lat'] = r.choice(BAD_LAT)
        elif k == 'lon':
            sc['lon'] = r.choice(BAD_LON)
        elif k == 'alg':
            sc['alg'] = r.choice(BAD_ALG)
        elif k == 'zone':
            sc['zone'] = r.choice(BAD_ZONE)
            if sc['zone'].strip() in ('', '5'):
                sc['want'] = 'any'
        elif k == 'extra':
            sc['extra'] = r.choice(EXTRA)
        else:                       # a local time that does not exist or comes twice
            sc['zone'], sc['time'] = r.choice([('Europe/Madrid', '2024-03-31 02:30'), ('Europe/Madrid', '2024-10-27 02:30'),
                                               ('America/New_York', '2024-03-10 02:00:00'), ('America/New_York', '2024-11-03 01:59:59'),
                                               ('Australia/Lord_Howe', '2024-10-06 02:15'), ('Pacific/Apia', '2011-12-30 12:00')])
            sc['want'] = 'any'

    def gen_sink(self, r, sc):
        k = r.choice(['disk', 'disk', 'disk', 'enc', 'enc', 'full', 'closed', 'epipe', 'eagain', 'readonly', 'null', 'fsize'])
        s = {'kind': 'file'}
        if k == 'disk':
            s['disk'] = {'faults': []}
            if r.random() < .5:
                s['disk']['space'] = r.choice([0, 1, 100, 1000, 1500, 2000, r.randrange(2200)])
            for _ in range(r.choice([0, 1, 1, 2, 3]) if 'space' in s['disk'] else r.choice([1, 1, 2, 3])):
                s['disk']['faults'].append({'op': r.choice([2, 2, 2, 3, 3, 4, 5]), 'kind': 'err', 'errno': r.choice(['EIO', 'ENOSPC', 'EDQUOT'])}
                                           if r.random() < .6 else {'op': r.choice([2, 2, 3, 4]), 'kind': 'short', 'arg': r.randrange(1, 1000)})
        elif k == 'enc':
            s['encoding'], s['errors'] = r.choice(ENCODINGS)
        elif k == 'fsize':
            s['fsize'] = r.choice([0, 1, 500, 1000, 1200, 1400, r.randrange(2000)])
        else:
            s['kind'] = k
        if r.random() < .35:
            s['unbuffered'] = True
        sc['sink'] = s

    def gen_calc(self, r, sc):
        if r.random() < .75:
            sc['fault'] = {'line': r.randrange(1, self.lines.get(sc['alg'], 300) + 5), 'exc': r.choice(sorted(EXC))}
        else:
            name = r.choice(['py_psa', 'py_soltrack', 'py_iqbal'] + list(BACKEND.values()))
            sc['fault'] = {'import': [{'name': 'sunwhere.libspa.' + name, 'at': None, 'exc': r.choice(sorted(brokenimport.EXC))}]}
            if r.random() < .2:
                sc['fault']['import'] = [{'name': r.choice(['tabulate', 'typer', 'sunwhere.usecases', 'sunwhere.utils.validate']), 'at': None,
                                          'exc': r.choice(sorted(brokenimport.EXC))}]

    # ------------------------------------------------------------ execution
    def args(self, sc):
        a = ['at', sc['time'], sc['lat'], sc['lon'], '-z', sc['zone'], '-a', sc['alg']] + ([] if sc['refr'] else ['--no-refraction'])
        return a + list(sc['extra'])

    def invoke(self, sc):
        d = tempfile.mkdtemp(prefix='c18-', dir=os.environ['DST_SCRATCH'])
        node = {'tz': sc['tz'], 'clock': {'base': sc['s'] * NS + 500000000 if sc['time'] == 'now' else 1700000000 * NS, 'step': 0, 'jumps': []},
                'columns': sc.get('columns', 80), 'err': sc.get('err', 'ok')}
        try:
            if sc.get('real'):
                if sc.get('opt'):
                    node['env'] = {'PYTHONOPTIMIZE': sc['opt']}
                return clisim.run_real(self.args(sc), d, node, sc['sink'])
            f = sc.get('fault')
            before = None
            if f:
                before = (lambda: Broken(f['import'])) if 'import' in f else (lambda: Boom(f['line'], f['exc']))
            return clisim.run_cli(self.args(sc), d, node, sc['sink'], before)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def reference(self, sc):
        """(text of the right answer, None) or (None, what is wrong with it): the same command where nothing fails."""
        key = (tuple(self.args(sc)), sc['s'], sc['tz'])
        if key not in self.clean:
            if len(self.clean) > 500:
                self.clean.clear()
            rep = self.invoke(dict(sc, sink={'kind': 'file'}, fault=None, err='ok', real=False))
            out = rep['out'].decode('utf-8', 'replace')
            rows = clisim.parse_table(out)
            if rep['code'] or rows is None:
                v = (None, f'exit {rep["code"]}: {(out + rep["err"].decode("utf-8", "replace")).strip()[-300:]}')
            else:
                e = self.cli.differs(rows, sc, sc['s'])
                v = (None, e) if e else (out, None)
            self.clean[key] = v
        return self.clean[key]

    def judge(self, sc, rep):
        sink, f, want = sc['sink'], sc.get('fault'), sc['want']
        out = rep['out']
        ctx = rep.get('ctx') or {}
        calc_failed = bool(ctx.get('fired'))
        if f and 'import' in f and calc_failed:
            broken = f['import'][0]['name'].rpartition('.')[2]
            if broken in BACKEND.values() or broken.startswith('py_'):
                calc_failed = broken == BACKEND.get(sc['alg'])
        enc, errors = sink.get('encoding') or 'utf-8', sink.get('errors', 'strict')
        ref = None
        if want == 'ok':
            ref, e = self.reference(sc)
            if ref is None:
                return ('not-delivered', 'with nothing failing: ' + e)
        unencodable = False
        if ref is not None:
            try:
                data = ref.encode(enc, errors)
            except UnicodeError:
                unencodable = True
        sink_bad = sink['kind'] in ('full', 'closed', 'readonly', 'epipe', 'eagain') or bool(rep['sink_fired']) or unencodable or 'fsize' in sink
        text = out.decode(enc, 'replace') + '\n' + rep['err'].decode('utf-8', 'replace')
        if rep['code'] == 0:
            if want == 'bad':
                return ('false-success', f'exit 0 for a bad argument: {text.strip()[-400:]}')
            if sink['kind'] == 'null':
                return None
            if ref is None:             # an odd argument it chose to take: the table must still be whole
                if sink['kind'] != 'file' or 'utf' in enc:
                    rows = clisim.parse_table(out.decode(enc, 'replace')) if sink['kind'] == 'file' else None
                    if rows is None or any(n not in rows or not rows[n] or 'nan' in rows[n].lower() or 'nat' in rows[n].lower()
                                           for n in clisim.ROWS if n and not n.startswith('Sun')):
                        return ('incomplete-success', f'exit 0 with {text.strip()[-400:]!r}')
                return None
            if unencodable or data not in out:
                got = clisim.parse_table(out.decode(enc, 'replace'))
                e = self.cli.differs(got, sc, sc['s']) if got else 'there is no complete table'
                if e:
                    return ('incomplete-success', f'exit 0, {e}; {len(out)} of {0 if unencodable else len(data)} bytes on stdout: {text.strip()[-200:]!r}')
            return None
        if want == 'ok' and not sink_bad and not calc_failed and sc.get('err', 'ok') == 'ok':
            return ('false-failure', f'exit {rep["code"]} though nothing failed: {text.strip()[-400:]}')
        if not sink_bad:
            if sc.get('err', 'ok') == 'ok' and sink['kind'] != 'null' and not text.strip() and not (f or {}).get('exc') == 'KeyboardInterrupt':
                return ('no-message', f'exit {rep["code"]} ({rep["how"]}) without a message, output {text!r}')
            m = VALUE.search(text)
            if m:
                return ('values-on-failure', f'exit {rep["code"]} yet a position value was printed: {m.group(0)!r}')
        return None

    def run(self, sc, timeout=60., capture=False):
        rep = self.invoke(sc)
        why = self.judge(sc, rep)
        ctx = rep.get('ctx') or {}
        f = sc.get('fault')
        viol = []
        if why:
            wh = sc['sink']['kind'] + (' unbuffered' if sc['sink'].get('unbuffered') else '') + (f', {ctx.get("where")}' if ctx.get('fired') else '')
            viol.append({'class': why[0], 'where': wh, 'detail': why[1] + f' [sunwhere {" ".join(self.args(sc))}]'})
        fired = {}
        if ctx.get('fired'):
            fired['import-failure' if 'import' in f else 'error-at-line:' + f['exc']] = 1
        if rep['sink_fired']:
            fired['stdout-disk'] = rep['sink_fired']
        if sc['sink']['kind'] != 'file':
            fired['stdout-' + sc['sink']['kind']] = 1
        if 'fsize' in sc['sink']:
            fired['stdout-size-limit'] = 1
        if sc['sink'].get('encoding'):
            fired['stdout-encoding'] = 1
        if sc.get('err', 'ok') != 'ok':
            fired['stderr-' + sc['err']] = 1
        if sc['want'] == 'bad':
            fired['bad-argument'] = 1
        return {'viol': viol, 'fired': fired, 'fired_at': [str(ctx.get('where'))] if ctx.get('fired') else [], 'switches': 0, 'points': 0, 'trace': '',
                'sites': [], 'stats': {'invocations': 1}, 'fp': _rng.digest([self.args(sc), sc['sink'], sc.get('err'), rep['code'], ctx.get('where')]),
                'nontrivial': bool(fired) or sc['want'] != 'ok', 'digest': _rng.digest([rep['code'], rep['out'], ctx]),
                'sample': {'args': self.args(sc), 'sink': sc['sink'], 'fault': f, 'exit': rep['code']},
                'probes': {'exit-0': int(rep['code'] == 0), 'exit-1': int(rep['code'] == 1), 'exit-2': int(rep['code'] == 2), 'exit-120': int(rep['code'] == 120),
                           'error-survived': int(bool(ctx.get('fired')) and rep['code'] == 0), 'fresh-interpreter': int(bool(sc.get('real')))}}

    def shrink(self, sc):
        sk = sc['sink']
        if sc.get('real'):
            yield {k: v for k, v in sc.items() if k not in ('real', 'opt')}
            if sc.get('opt'):
                yield dict(sc, opt='')
        if sc.get('fault'):
            yield dict(sc, fault=None)
            if 'line' in sc['fault'] and sc['fault']['line'] > 1:
                yield dict(sc, fault=dict(sc['fault'], line=1))
                yield dict(sc, fault=dict(sc['fault'], line=sc['fault']['line'] // 2))
        if sk != {'kind': 'file'}:
            yield dict(sc, sink={'kind': 'file'})
            for k in ('unbuffered', 'encoding', 'disk'):
                if k in sk:
                    yield dict(sc, sink={a: b for a, b in sk.items() if a != k})
            if sk.get('disk'):
                fs = sk['disk'].get('faults', [])
                for j in range(len(fs)):
                    yield dict(sc, sink=dict(sk, disk=dict(sk['disk'], faults=fs[:j] + fs[j + 1:])))
                if 'space' in sk['disk']:
                    yield dict(sc, sink=dict(sk, disk={'faults': fs}))
        if sc['want'] == 'ok':
            for k, v in (('tz', 'UTC'), ('lat', '40N'), ('lon', '0E'), ('alg', 'psa'), ('refr', True), ('err', 'ok'), ('columns', 80)):
                if sc[k] != v and not (k == 'alg' and (sc.get('fault') or {}).get('import')):
                    yield dict(sc, **{k: v})
            if sc['time'] == 'now':
                if sc['zone'] != 'UTC':
                    yield dict(sc, zone='UTC')
            else:
                yield dict(sc, time='now', s=1718971200, zone='UTC')
        else:
            for k, v in (('tz', 'UTC'), ('err', 'ok'), ('columns', 80)):
                if sc[k] != v:
                    yield dict(sc, **{k: v})
            if sc['zone'] != 'UTC' and sc['want'] == 'bad' and sc['zone'] in c17.ZONES:
                yield dict(sc, zone='UTC')
