"""Common parts of the properties about the ephemeris download, its files and its cache."""
import os
import shutil
import tempfile

from .. import jplsim, rng as _rng, sched, stack
from ..minimize import chunks_removed

ZONES = ['UTC', 'Asia/Kathmandu', 'America/New_York', 'Pacific/Apia', 'XXX-14', 'Europe/Madrid']


def gen_net_fault(r, extra=()):
    k = r.choice(['dns', 'connect', 'connect', 'tls', 'tls', 'send', 'silent', 'silent', 'junk', 'status', 'status', 'redirect',
                  'page', 'page', 'damage', 'damage', 'damage', 'cut', 'cut', 'cut', 'cut', 'impostor'] + list(extra))
    f = {'kind': k}
    if k == 'connect':
        f.update(how=r.choice(['refused', 'unreachable', 'etimedout', 'stall', 'interrupt']), all=r.random() < .7)
    elif k == 'tls':
        f['how'] = r.choice(['reset', 'eof', 'error', 'stall', 'interrupt'])
    elif k == 'send':
        f['how'] = r.choice(['reset', 'pipe', 'stall', 'interrupt'])
    elif k == 'silent':
        f['how'] = r.choice(['stall', 'reset', 'close', 'close', 'interrupt', 'memory'])
    elif k == 'junk':
        f['how'] = r.choice(['line', 'bin', 'long', 'headers', 'half'])
    elif k == 'status':
        f.update(code=r.choice([400, 401, 403, 404, 408, 413, 429, 500, 502, 503, 503, 504, 206, 201, 203, 299]),
                 body=r.choice(['text', 'html', 'full', 'full', 'empty']))
        if f['body'] == 'full' and f['code'] < 400:
            f['code'] += 300
        if r.random() < .3 and f['body'] != 'full':
            f['retry_after'] = r.choice([1, 5, 30])
    elif k == 'redirect':
        f.update(code=r.choice([301, 302, 303, 307, 308]),
                 to=r.choice(['/api/horizons.api', 'https://ssd.jpl.nasa.gov/maintenance.html', '/login', 'http://elsewhere.example/x',
                              'https://ssd.jpl.nasa.gov/api/horizons.api?format=text']))
    elif k == 'page':
        f['page'] = r.choice(['html', 'json', 'text', 'empty', 'nul', 'quoted', 'markers'])
    elif k == 'damage':
        f.update(what=r.choice(['no-soe', 'no-eoe', 'no-markers', 'cut-early', 'cut-early', 'lost-lines', 'lost-lines',
                                'double-lines', 'bytes', 'swapped', 'indented', 'truncated', 'truncated']),
                 arg=r.choice([0, 1, 999, 1000, r.randrange(1001)]), n=r.choice([1, 1, 2, 60]))
        if f['what'] == 'truncated':
            f['arg'] = min(f['arg'], 990)
    elif k == 'cut':
        f.update(how=r.choice(['close', 'close', 'close', 'reset', 'stall', 'interrupt', 'memory', 'tls']),
                 at=r.choice([0, 1000, 1000, r.randrange(1001), r.randrange(1001)]), back=r.choice([0, 0, 1, 2, 5, 700, 900]),
                 where=r.choice(['body'] * 5 + ['head']), framing=r.choice(['cl', 'cl', 'chunked', 'close']))
    return f


def gen_disk(r, wops):
    d = {'faults': []}
    if r.random() < .5:
        d['power'] = r.choice([0, 0, 500, 999, r.randrange(1000), 1000])
    if r.random() < .2:
        d['space'] = r.choice([0, 1, 4096, r.randrange(20000), r.randrange(400000)])
    for _ in range(r.choice([1, 1, 1, 2, 3]) if 'space' not in d else r.choice([0, 0, 1])):
        k = r.choice(['err', 'err', 'err', 'short', 'short', 'before', 'after', 'after', 'torn', 'torn'])
        f = {'kind': k, 'op': 1 + r.randrange(max(1, wops + 1))}
        if k == 'err':
            f['errno'] = r.choice(['EIO', 'ENOSPC', 'ENOSPC', 'EDQUOT', 'EACCES', 'EROFS'])
        if k in ('short', 'torn'):
            f['arg'] = r.choice([0, 1, 500, 999, r.randrange(1000)])
        d['faults'].append(f)
    return d


def site(r):
    def coord(lim):
        k = r.random()
        if k < .12:
            return r.choice([0, lim, -lim, 0., -0., float(lim), 1e-7, -4e-7, .5, 1])
        if k < .3:
            return r.randint(-lim, lim)
        if k < .5:
            return round(r.uniform(-lim, lim), 3)
        return r.choice([round(r.uniform(-lim, lim), 6), r.uniform(-lim, lim)])
    return coord(180), coord(90)


class JplProp:
    ID = None
    YEARS = ()
    # every property of the family is about these files only
    ROOT = 'w'

    def prepare(self):
        stack.bring_up(locks=False, cli=False)
        import loguru
        loguru.logger.remove()
        jplsim.stand_ins()
        if self.YEARS:
            jplsim.remember_dates(self.YEARS)
        import urllib3
        import urllib3.util.ssl_    # noqa: F401
        urllib3.disable_warnings()
        sched.discover()
        self.warm()

    def warm(self):
        pass

    def scratch(self):
        d = tempfile.mkdtemp(prefix=self.ID.lower() + '-', dir=os.environ['DST_SCRATCH'])
        os.mkdir(os.path.join(d, 'w'))
        os.mkdir(os.path.join(d, 'side'))
        return d

    def drop(self, d):
        shutil.rmtree(d, ignore_errors=True)

    @staticmethod
    def files(root):
        out = {}
        for a, _, fs in os.walk(root):
            for f in fs:
                p = os.path.join(a, f)
                with open(p, 'rb') as fh:
                    out[os.path.relpath(p, root)] = fh.read()
        return out

    @staticmethod
    def dirs(root):
        return sorted(os.path.relpath(os.path.join(a, x), root) for a, ds, _ in os.walk(root) for x in ds)

    def tally(self, fired, plan, res):
        for k, n in res['fired'].items():
            fired[k] = fired.get(k, 0) + n
        if res['out'][0] == 'crash':
            fired['crash'] = fired.get('crash', 0) + 1
            if plan.get('disk', {}).get('power', -1) >= 0:
                fired['power-loss'] = fired.get('power-loss', 0) + 1
        else:
            for line in res['disk']['log']:
                if line.startswith('FAULT ') or line.startswith('FULL'):
                    k = 'disk-' + line.split()[1] if line.startswith('FAULT') else 'disk-full'
                    fired[k] = fired.get(k, 0) + 1
                if line.startswith('powerloss'):
                    fired['power-loss'] = fired.get('power-loss', 0) + 1
        if res['out'][0] == 'interrupt' and res['where']:
            fired['interrupt-line'] = fired.get('interrupt-line', 0) + 1

    def finish(self, rep, sc, digest):
        rep.setdefault('switches', 0)
        rep.setdefault('trace', '')
        rep.setdefault('sites', [])
        rep.setdefault('stats', {})
        rep['fp'] = _rng.digest(digest)
        rep['digest'] = _rng.digest([digest, [(v['class'], v['where']) for v in rep['viol']], sorted(rep['fired'].items())])
        rep.setdefault('nontrivial', sum(rep['fired'].values()) > 0)
        rep.setdefault('probes', {})
        return rep


def simpler_plan(p):
    """Smaller plans of one attempt."""
    for k in ('die', 'loss', 'disk', 'tz'):
        if p.get(k) is not None:
            q = {a: b for a, b in p.items() if a != k and not (k == 'die' and a == 'die_in')}
            yield q
    n = p.get('net') or {}
    if n.get('tail'):
        yield dict(p, net=dict(n, tail=None))
    for c in chunks_removed(n.get('faults', [])):
        yield dict(p, net=dict(n, faults=c))
    for i, f in enumerate(n.get('faults', [])):
        if f:
            yield dict(p, net=dict(n, faults=n['faults'][:i] + [{}] + n['faults'][i + 1:]))
    for k, v in (('seg', 65536), ('gap', 0.), ('keep', True), ('framing', 'cl'), ('addrs', 1)):
        if n.get(k, v) != v:
            yield dict(p, net=dict(n, **{k: v}))
    d = p.get('disk') or {}
    for c in chunks_removed(d.get('faults', [])):
        yield dict(p, disk=dict(d, faults=c))
    for k in ('power', 'space'):
        if k in d:
            yield dict(p, disk={a: b for a, b in d.items() if a != k})
    for i, f in enumerate(d.get('faults', [])):
        if f.get('arg') not in (None, 500):
            yield dict(p, disk=dict(d, faults=d['faults'][:i] + [dict(f, arg=500)] + d['faults'][i + 1:]))


def gen_net(r, nf, small):
    n = {'faults': [], 'addrs': r.choice([1, 1, 2]), 'keep': r.random() < .7, 'framing': r.choice(['cl', 'cl', 'chunked', 'close']),
         'seg': r.choice([65536, 65536, 8192, 1460, 1460] + ([1, 7, 100] if small else [])), 'gap': r.choice([0., 0., 0., .05, 1.]),
         'chunk': r.choice([4000, 8192, 333, 100000])}
    for _ in range(nf):
        n['faults'].append(gen_net_fault(r))
    return n
