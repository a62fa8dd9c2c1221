"""C10: a missing or failing backend disables only itself and says so."""
import importlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import brokenimport, callsim, canon, forkrun, rng as _rng, specs, stack
from ..minimize import chunks_removed
from . import base
from .c09 import angle, overhead, subsolar

BACKENDS = {('psa', 'numpy'): 'py_psa', ('psa', 'numexpr'): 'ne_psa', ('soltrack', 'numpy'): 'py_soltrack',
            ('soltrack', 'numexpr'): 'ne_soltrack', ('iqbal', 'numpy'): 'py_iqbal', ('iqbal', 'numexpr'): 'ne_iqbal',
            ('nrel', 'numexpr'): 'ne_nrel'}
FIRST = ['sunwhere', 'sunwhere._core', 'sunwhere.utils.datetime', 'sunwhere._base', 'sunwhere.usecases', 'sunwhere.libspa',
         'sunwhere.utils', 'sunwhere.utils.jpl_horizons']
FAILOVER = ['psa', 'soltrack', 'iqbal']


def perform(sc):
    """In a process whose imports fail as the scenario says: import the package, ask it things."""
    fi = brokenimport.install(sc['faults'])
    viol, out = [], []
    try:
        importlib.import_module(sc['first'])
        import sunwhere
        importlib.import_module('sunwhere.utils.datetime')
    except Exception as e:      # noqa: BLE001
        return {'viol': [{'class': 'package-does-not-import', 'where': f'import {sc["first"]}',
                          'detail': f'{type(e).__name__}: {e} with {sc["faults"]}'}], 'out': [], 'fired': fi.fired,
                'loaded': []}
    loaded = [m for m in BACKENDS.values() if f'sunwhere.libspa.{m}' in sys.modules]
    if tuple(sunwhere.SPA_ALGORITHMS) != ('psa', 'soltrack', 'iqbal', 'nrel'):
        viol.append({'class': 'algorithms-changed', 'where': 'SPA_ALGORITHMS', 'detail': str(sunwhere.SPA_ALGORITHMS)})
    for op in sc['ops']:
        s = dict(sc['specs'][op['spec']], uc=op['uc'], alg=op['alg'], eng=op['eng'])
        try:
            sw = specs.invoke(s)
            got = [callsim.snapshot(sw)] + [canon.canon(read(sw, a)) for a in op['reads']]
            out.append(('answer', got, None))
        except Exception as e:      # noqa: BLE001
            out.append(('error', type(e).__name__, str(e), isinstance(e, ValueError)))
    return {'viol': viol, 'out': out, 'fired': fi.fired, 'loaded': loaded}


def read(sw, a):
    try:
        return specs.read(sw, a)
    except Exception as e:      # noqa: BLE001
        return e


class Prop(base.CallProp):
    ID = 'C10'

    def __init__(self):
        pass

    def prepare(self):
        stack.bring_up(locks=False, cli=False)
        self.healthy = {}
        import sunwhere
        d = os.path.join(os.path.dirname(sunwhere.__file__), 'libspa')
        self.files = sorted(f[:-3] for f in os.listdir(d) if f.endswith('.py') and f != '__init__.py')
        self.n = {m: brokenimport.statements(os.path.join(d, m + '.py')) for m in self.files}

    # ------------------------------------------------------------ generation
    def gen(self, r, i, tier):
        f = self.fam_rng()
        fam = [specs.gen_spec(f, f.choice(['tiny', 'small']), uc) for uc in specs.USECASES]
        reads = [f.sample(specs.DERIVED, 3) for _ in range(3)]
        faults = []
        x = r.random()
        if x < .45:
            faults.append({'name': 'numexpr', 'exc': r.choice(list(brokenimport.EXC)), 'at': None})
            if r.random() < .35:
                faults[-1]['times'] = r.randint(1, 4)
        if x > .35 or r.random() < .3:
            k = r.choice([1, 1, 1, 2, 3, len(self.files)])
            for m in r.sample(self.files, min(k, len(self.files))):
                faults.append({'name': f'sunwhere.libspa.{m}', 'exc': r.choice(list(brokenimport.EXC)),
                               'at': r.choice([None, 0, r.randrange(self.n[m] + 1), r.randrange(self.n[m] + 1), self.n[m]])})
        ops = []
        pairs = list(specs.ALGS) + [('nrel', 'numpy')]
        r.shuffle(pairs)
        for al, en in pairs:
            for _ in range(r.choice([1, 1, 2])):
                k = r.randrange(3)
                ops.append({'spec': k, 'uc': specs.USECASES[k], 'alg': al, 'eng': en, 'reads': reads[k]})
        for _ in range(r.randint(1, 3)):
            k = r.randrange(3)
            ops.append({'spec': k, 'uc': specs.USECASES[k], 'alg': r.choice([None, 'psa', 'nrel', 'iqbal']), 'eng': None,
                        'reads': reads[k]})
        ops.append({'spec': 0, 'uc': specs.USECASES[0], 'alg': r.choice(['psa', 'nrel']),
                    'eng': r.choice(['numba', 'cython', '', 'NUMPY', 'numexpr ']), 'reads': []})
        r.shuffle(ops)
        sc = {'specs': fam, 'ops': ops, 'faults': faults, 'first': r.choice(FIRST)}
        if r.random() < .02:
            sc['fresh'] = True
            sc['ops'] = ops[:8]
        sc['field'] = {'alg': r.choice(FAILOVER), 'seed': r.randrange(10**6), 'uc': r.choice(specs.USECASES),
                       'n': r.choice([1, 40, 200, 1000]), 'refr': r.random() < .6, 'kind': r.choice(['any', 'horizon', 'polar', 'zenith'])}
        return sc

    # ------------------------------------------------------------ execution
    def reference(self, s, reads):
        """The answer of a healthy process."""
        key = json.dumps([s, reads], sort_keys=True)
        if key not in self.healthy:
            if len(self.healthy) > 300:
                self.healthy.clear()

            def child():
                try:
                    sw = specs.invoke(s)
                    return ('answer', [callsim.snapshot(sw)] + [canon.canon(read(sw, a)) for a in reads], None)
                except Exception as e:      # noqa: BLE001
                    return ('error', type(e).__name__, str(e), isinstance(e, ValueError))
            self.healthy[key] = forkrun.run(child, 60.)
        return self.healthy[key]

    def fresh(self, sc):
        d = tempfile.mkdtemp(prefix='c10-', dir=os.environ['DST_SCRATCH'])
        try:
            with open(os.path.join(d, 'req'), 'wb') as fh:
                pickle.dump(sc, fh)
            p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c',
                                'import sys, pickle; sys.path.insert(0, %r)\n'
                                'from dst import brokenimport\n'
                                'sc = pickle.load(open(sys.argv[1], "rb"))\n'
                                # pandas itself survives a missing numexpr, not a broken one
                                'f = brokenimport.install([dict(x, exc="ModuleNotFoundError", times=None) for x in sc["faults"] '
                                'if x["name"] == "numexpr"])\n'
                                'from dst.props import c10\n'
                                'sys.meta_path.remove(f)\n'
                                'pickle.dump(c10.perform(sc), open(sys.argv[2], "wb"))' % os.environ['DST_VERIF'],
                                os.path.join(d, 'req'), os.path.join(d, 'out')],
                               capture_output=True, timeout=120, text=True)
            if p.returncode:
                raise RuntimeError('node failed: ' + p.stderr[-2000:])
            return pickle.load(open(os.path.join(d, 'out'), 'rb'))
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run(self, sc, timeout=60.0, capture=False):
        got = self.fresh(sc) if sc.get('fresh') else forkrun.run(lambda: perform(sc), timeout)
        viol = got['viol']
        down = 0
        if not any(v['class'] == 'package-does-not-import' for v in viol):
            names = {f['name'].rsplit('.', 1)[-1] for f in sc['faults'] if f['name'].startswith('sunwhere')}
            hit = {w.split('@')[0].rsplit('.', 1)[-1] for _, w in got['fired']}
            flaky = [f for f in sc['faults'] if f['name'] == 'numexpr']
            for k, (op, g) in enumerate(zip(sc['ops'], got['out'])):
                al = 'psa' if op['alg'] is None else op['alg']
                en = 'numexpr' if op['eng'] is None else op['eng']
                m = BACKENDS.get((al, en))
                s = dict(sc['specs'][op['spec']], uc=op['uc'], alg=op['alg'], eng=op['eng'])
                want = self.reference(s, op['reads'])
                where = f'op {k}: {op["uc"]} {op["alg"]}/{op["eng"]}'
                if m is None:
                    state = 'missing'
                elif m in names and m in hit:
                    state = 'missing'
                elif en == 'numexpr' and flaky and flaky[0].get('times'):
                    # which backends met the passing trouble is the package's business: answer or say so
                    state = 'either'
                elif en == 'numexpr' and flaky:
                    state = 'missing'
                else:
                    state = 'there'
                down += state == 'missing'
                if g[0] == 'error' and state in ('missing', 'either') and m is not None or (m is None and g[0] == 'error'):
                    msg = g[2].lower()
                    if not g[3] or 'engine' not in msg or en.lower() not in msg:
                        viol.append({'class': 'wrong-error', 'where': where,
                                     'detail': f'unavailable engine reported as {g[1]}: {g[2]}'})
                    continue
                if state == 'missing':
                    viol.append({'class': 'answered-by-another', 'where': where,
                                 'detail': 'the backend cannot be imported, yet the call returned an answer'})
                    continue
                dd = self.compare(want, g)
                if dd:
                    viol.append({'class': 'healthy-backend-affected', 'where': where, 'detail': dd})
        e, pts = self.failover(sc['field'])
        if e:
            viol.append({'class': 'failover-changes-answer', 'where': f'{sc["field"]["alg"]} numpy/numexpr', 'detail': e})
        fired = {}
        for k, _ in got['fired']:
            fired[k] = fired.get(k, 0) + 1
        rep = {'viol': viol, 'fired': fired, 'fired_at': got['fired'], 'switches': 0, 'points': len(sc['ops']), 'trace': '',
               'sites': [], 'stats': {'calls': len(sc['ops']), 'asked-of-missing': down, 'failover-observations': pts}}
        rep['fp'] = _rng.digest([sc['faults'], sc['first'], [(o['uc'], o['alg'], o['eng']) for o in sc['ops']], sc['field']])
        rep['nontrivial'] = bool(got['fired'])
        rep['digest'] = _rng.digest([got['fired'], got['loaded'], [(g[0], g[1] if g[0] == 'error' else '') for g in got['out']],
                                     viol])
        rep['sample'] = {'faults': sc['faults'][:3], 'first': sc['first'], 'asked': [(o['alg'], o['eng']) for o in sc['ops'][:5]]}
        rep['probes'] = {'fresh-interpreter': int(bool(sc.get('fresh')))}
        return rep

    @staticmethod
    def compare(w, g):
        if w[0] != g[0]:
            return f'expected {w[0]}, got {g[0]}: {g[1] if g[0] == "error" else ""} {g[2] if g[0] == "error" else ""}'
        if w[0] == 'error':
            return None if w[1:3] == g[1:3] else f'expected {w[1]}: {w[2]}, got {g[1]}: {g[2]}'
        for a, b in zip(w[1], g[1]):
            d = canon.diff(a, b, 'value')
            if d:
                return d
        return None

    def failover(self, fd):
        import sunwhere
        rs = np.random.RandomState(fd['seed'])
        n = fd['n'] if fd['uc'] == 'transect' else max(1, int(fd['n'] ** (1 / 2 if fd['uc'] == 'sites' else 1 / 3)))
        t = (rs.randint(0, 50 * 365 * 86400, n) + specs.Y2000).astype('datetime64[s]')
        lat, lon = rs.uniform(-90, 90, n), rs.uniform(-180, 180, n)
        if fd['kind'] == 'polar':
            lat = np.where(rs.rand(n) < .5, -1, 1) * (90 - np.abs(rs.uniform(0, 1, n) ** 6 * 3))
            lat[rs.rand(n) < .05] = 90.
        elif fd['kind'] == 'horizon':
            lon = (rs.choice([-1, 1], n) * rs.uniform(80, 96, n)
                   - ((t.astype('int64') % 86400) / 240. - 180) + 180) % 360 - 180
            lat = rs.uniform(-30, 30, n)

        def child():
            nonlocal lat, lon
            out = []
            if fd['kind'] == 'zenith':
                # the sun straight above or below, or nearly
                la, lo = subsolar(sunwhere, t.astype('datetime64[ns]').view('int64'), dict(algorithm=fd['alg'], engine='numpy'),
                                  bool(fd['seed'] % 2))
                off = 10 ** rs.uniform(-7, 0, n) * (rs.rand(n) < .8)
                lat, lon = la + off * rs.uniform(-1, 1, n), np.clip(lo + off * rs.uniform(-1, 1, n), -180, 179.999)
            for en in ('numpy', 'numexpr'):
                sw = getattr(sunwhere, fd['uc'])(t, lat, lon, algorithm=fd['alg'], engine=en, refraction=fd['refr'])
                out.append({q: np.array(getattr(sw, q).values, dtype=float)
                            for q in ('zenith', 'azimuth', 'eot', 'ecf', 'declination')})
            return out
        a, b = forkrun.run(child, 60.)
        if a['zenith'].shape != b['zenith'].shape:
            return 'shapes differ', 0
        z1, z2 = a['zenith'], b['zenith']
        ok = angle(z1, a['azimuth'], z2, b['azimuth']) <= 5e-3
        # refraction starts at an elevation of -0.8334 degrees: rounding may fall on either side
        step = fd['refr'] & ((np.abs(z1 - 90.8334) < .004) | (np.abs(z2 - 90.8334) < .004))
        ok |= overhead(z1, z2, 5e-3) & np.isfinite(a['azimuth']) & np.isfinite(b['azimuth'])
        ok |= step & (np.abs(z1 - z2) < .8)
        if not ok.all():
            ix = tuple(int(q) for q in np.argwhere(~ok)[0])
            return (f'{int((~ok).sum())} of {ok.size} directions differ, first at {t[ix[0]]}: '
                    f'({z1[ix]}, {a["azimuth"][ix]}) and ({z2[ix]}, {b["azimuth"][ix]})'), int(ok.size)
        for q, tol in (('eot', 1e-6), ('ecf', 1e-9), ('declination', 1e-6)):
            d = np.abs(a[q] - b[q])
            if not (d <= tol).all():
                return f'{q} differs by {np.nanmax(d)}', int(ok.size)
        return None, int(ok.size)

    def shrink(self, sc):
        for c in chunks_removed(sc['faults']):
            yield dict(sc, faults=c)
        for c in chunks_removed(sc['ops']):
            yield dict(sc, ops=c)
        if sc.get('fresh'):
            yield {k: v for k, v in sc.items() if k != 'fresh'}
        if sc['first'] != 'sunwhere':
            yield dict(sc, first='sunwhere')
        for k, f in enumerate(sc['faults']):
            if f.get('times'):
                yield dict(sc, faults=sc['faults'][:k] + [dict(f, times=None)] + sc['faults'][k + 1:])
            if f['exc'] not in ('ImportError',):
                yield dict(sc, faults=sc['faults'][:k] + [dict(f, exc='ImportError')] + sc['faults'][k + 1:])
            if f.get('at'):
                yield dict(sc, faults=sc['faults'][:k] + [dict(f, at=0)] + sc['faults'][k + 1:])
        for k, o in enumerate(sc['ops']):
            if o['reads']:
                yield dict(sc, ops=sc['ops'][:k] + [dict(o, reads=[])] + sc['ops'][k + 1:])
        fd = sc['field']
        if fd['n'] > 1:
            yield dict(sc, field=dict(fd, n=fd['n'] // 2))
        if fd['kind'] != 'any':
            yield dict(sc, field=dict(fd, kind='any'))
