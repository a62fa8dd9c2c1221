"""C12: a damaged ephemeris file is rejected, never read short or wrong."""
import os

import numpy as np

from .. import interrupt, jplsim, rng as _rng
from . import jplbase

MARK = b'\n$$EOE\n'


def build(q):
    """A complete file and the table it holds."""
    mins = q['start'] + np.arange(q['n']) * q['step']
    t = lambda m: jplsim.day_str(int(m) // 1440)[1:] + jplsim.SUF[int(m) % 1440][:6]     # noqa: E731
    head = jplsim.HEAD.format(stamp='Thu Nov 19 10:00:00 2026', start=t(mins[0]), stop=t(mins[-1]), step=q['step'], site=q['site'])
    lines = jplsim.data_lines(tuple(q['site']), mins)
    if q.get('extra'):
        lines = [x + '   0.0001234' for x in lines]      # a further column (range rate)
    tail = jplsim.TAIL if q.get('tail', True) else ''
    data = (head + '$$SOE\n' + '\n'.join(lines) + '\n$$EOE\n' + tail).encode()
    return data, jplsim.table_of(tuple(q['site']), mins)


def damaged(data, dm):
    """The bytes in the file, and whether reading it must fail (True), may fail (None) or must succeed (False)."""
    k = dm['kind']
    soe, eoe = data.index(b'$$SOE\n'), data.index(MARK) + 1
    end = eoe + len(MARK) - 2                   # the end of the end marker itself
    if k == 'none':
        return data, False
    if k == 'crlf':
        return data.replace(b'\n', b'\r\n'), False
    if k == 'bare-end':
        return data[:end], None
    if k == 'cut':
        lo, hi = {'any': (0, end), 'head': (0, soe + 6), 'lines': (soe + 6, eoe), 'marker': (eoe - 3, end)}[dm['where']]
        b = lo + (hi - lo) * dm['at'] // 10000
        b = max(0, min(end - 1, b + dm.get('by', 0)))
        if dm.get('line'):                      # exactly after a whole line
            b = data.rfind(b'\n', 0, b) + 1
        return data[:b], True
    if k == 'nul-tail':
        b = min(end - 1, end * dm['at'] // 10000)
        return data[:b] + b'\0' * (len(data) - b), True
    if k == 'tail-cut':
        b = end + 1 + (len(data) - end - 1) * dm['at'] // 10000
        return data[:b], False
    if k == 'page':
        return {'html': b'<html><body>Service unavailable</body></html>', 'text': jplsim.error_text('No ephemeris for target').encode(),
                'empty': b'', 'json': b'{"error":"busy"}', 'nul': b'\0' * 10000, 'bin': bytes(range(256)) * 20,
                'head': data[:soe], 'markers-in-text': b'no ephemeris between $$SOE and $$EOE\n'}[dm['page']], True
    if k == 'no-soe':
        return data.replace(b'$$SOE\n', b'', 1), True
    if k == 'no-eoe':
        return data[:eoe] + data[eoe + 6:], True
    if k == 'swapped':
        return data.replace(b'\n$$SOE\n', b'\n$$XXX\n', 1).replace(b'\n$$EOE\n', b'\n$$SOE\n', 1).replace(b'\n$$XXX\n', b'\n$$EOE\n', 1), True
    if k == 'renewed':                          # an interrupted copy, then the whole file again behind it
        b = soe + 6 + (eoe - soe - 6) * dm['at'] // 10000
        return data[:b] + data, None
    raise AssertionError(k)


class Prop(jplbase.JplProp):
    ID = 'C12'

    def warm(self):
        d = self.scratch()
        try:
            q = {'start': 28401120, 'n': 40, 'step': 12, 'site': [1., 2., 0.]}
            r = self.perform({'steps': [{'q': q, 'dm': {'kind': 'none'}, 'die': 10**9}]}, d, 60.)
            self.nlines = r['steps'][0]['lines']
        finally:
            self.drop(d)

    def gen(self, r, i, tier):
        f = _rng.rng_of(*self.fam_seed)
        fam = []
        for _ in range(2):
            lon, lat = jplbase.site(f)
            fam.append({'start': f.choice([28401120, 27348480, f.randrange(-20000000, 60000000)]), 'n': f.choice([2, 5, 20, 60, 120, f.randrange(1, 400)]),
                        'step': f.choice([1, 12, 60, 1440, 7]), 'site': [lon, lat, f.choice([0., .7])], 'extra': f.random() < .2,
                        'tail': f.random() < .8})
        if r.random() < .03:
            fam[0] = dict(fam[0], n=r.choice([2000, 5000]))
        steps = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            s = {'q': r.choice(fam) if r.random() < .8 else dict(r.choice(fam), n=r.randrange(1, 60)), 'path': r.choice(['x.txt', 'x.txt', 'y.txt']),
                 'dm': self.damage(r)}
            if r.random() < .3:
                s['disk'] = {'faults': [{'read': True, 'op': r.choice([1, 1, 2, 2, 3, 4, 6]), 'kind': 'err', 'errno': 'EIO'} if r.random() < .5 else
                                        {'read': True, 'op': 1 + j, 'kind': 'short', 'arg': r.choice([1, 5, 500, 999])} for j in range(r.choice([1, 3, 8]))]}
            if r.random() < .1:
                s['die'] = 1 + r.randrange(self.nlines * s['q']['n'] // 40 + 10)
            if r.random() < .15:
                s['same_time'] = True           # the file keeps its modification time
            steps.append(s)
        return {'steps': steps, 'tz': r.choice(jplbase.ZONES + [None])}

    @staticmethod
    def damage(r):
        k = r.choice(['none'] * 5 + ['crlf', 'bare-end', 'nul-tail', 'tail-cut', 'page', 'page', 'no-soe', 'no-eoe', 'swapped', 'renewed'] + ['cut'] * 9)
        d = {'kind': k}
        if k == 'cut':
            d.update(where=r.choice(['any', 'lines', 'lines', 'head', 'marker', 'marker']), at=r.choice([0, 10000, r.randrange(10001), r.randrange(10001)]),
                     by=r.choice([0, 0, -1, 1, 2, 7]), line=r.random() < .3)
        elif k == 'page':
            d['page'] = r.choice(['html', 'text', 'empty', 'json', 'nul', 'bin', 'head', 'markers-in-text'])
        else:
            d['at'] = r.randrange(10001)
        return d

    def perform(self, sc, d, timeout):
        root = os.path.join(d, 'w')

        def history():
            from sunwhere.utils.jpl_horizons import read_jpl_ephemeris_file
            disk = jplsim.Disk()
            disk.off()
            outs = []
            for s in sc['steps']:
                data, _ = damaged(build(s['q'])[0], s['dm'])
                p = os.path.join(root, s.get('path', 'x.txt'))
                with open(p, 'wb') as f:
                    f.write(data)
                if s.get('same_time'):
                    os.utime(p, ns=(10**18, 10**18))
                die = interrupt.Die(s['die']) if s.get('die') else None
                disk.arm(root, s.get('disk'))
                try:
                    if die:
                        with die:
                            v = read_jpl_ephemeris_file(p)
                    else:
                        v = read_jpl_ephemeris_file(p)
                    ix = v.index
                    out = ('table', str(ix.tz), np.array(ix.tz_convert('UTC').tz_localize(None).values.astype('datetime64[ns]').astype('int64')) if ix.tz is not None else None,
                           [np.array(v[c], dtype=float) for c in ('azimuth', 'zenith', 'ecf')])
                except BaseException as e:      # noqa: BLE001
                    out = ('error', type(e).__name__, str(e)[:100])
                st = disk.state()
                disk.off()
                outs.append({'out': out, 'fired': st['fired'], 'eio': sum(x.startswith('FAULT') and x.endswith(' 1') for x in st['log']), 'rops': st['rops'], 'lines': die.k if die else 0, 'die': bool(die and die.fired)})
            return outs
        res = jplsim.attempt(history, {'tz': sc.get('tz')}, root, None, timeout)
        if res['out'][0] != 'ok':
            raise RuntimeError(f'the history ended with {res["out"]}')
        return {'steps': res['out'][1]}

    def run(self, sc, timeout=60., capture=False):
        d = self.scratch()
        try:
            got = self.perform(sc, d, timeout)['steps']
        finally:
            self.drop(d)
        viol, fired, hist = [], {}, []
        for k, (s, g) in enumerate(zip(sc['steps'], got)):
            data, fails = damaged(build(s['q'])[0], s['dm'])
            eio = g['eio'] > 0
            name = s['dm']['kind'] + ('-' + s['dm'].get('where', s['dm'].get('page', '')) if s['dm']['kind'] in ('cut', 'page') else '')
            if name != 'none':
                fired['file-' + name] = fired.get('file-' + name, 0) + 1
            if g['fired']:
                fired['read-eio' if eio else 'short-read'] = fired.get('read-eio' if eio else 'short-read', 0) + g['fired']
            if g['die']:
                fired['interrupt-line'] = fired.get('interrupt-line', 0) + 1
            o = g['out']
            hist.append([o[0], o[1] if o[0] == 'error' else len(o[2]) if o[2] is not None else None, name, len(data), g['fired'], g['die']])
            where = f'read {k + 1}: {name}'
            if o[0] == 'error':
                if fails is False and not g['die'] and not eio:
                    viol.append({'class': 'complete-rejected', 'where': where, 'detail': f'{o[1]}: {o[2]}'})
                continue
            if fails or eio:
                viol.append({'class': 'damage-accepted', 'where': where,
                             'detail': f'{len(data)} bytes, {"EIO" if eio else "damaged"}, yet a table of {len(o[2]) if o[2] is not None else "?"} rows was returned'})
                continue
            e = self.compare(build(s['q'])[1], o)
            if e:
                viol.append({'class': 'wrong-table', 'where': where, 'detail': e})
        return self.finish({'viol': viol, 'fired': fired, 'fired_at': [h[:3] for h in hist], 'points': sum(g['rops'] for g in got),
                            'stats': {'reads': len(got), 'tables': sum(g['out'][0] == 'table' for g in got)},
                            'sample': {'history': [h[:4] for h in hist], 'tz': sc.get('tz')}}, sc, [hist, sc.get('tz')])

    @staticmethod
    def compare(want, o):
        if o[1] != 'UTC' or o[2] is None:
            return f'the index is in {o[1]}'
        if len(o[2]) != len(want[0]):
            return f'{len(o[2])} rows of {len(want[0])}'
        if not np.array_equal(o[2], want[0]):
            j = int(np.argmax(o[2] != want[0]))
            return f'row {j} is for {np.datetime64(int(o[2][j]), "ns")}, not {np.datetime64(int(want[0][j]), "ns")}'
        for name, g, w in zip(('azimuth', 'zenith', 'ecf'), o[3], want[1:]):
            if not np.allclose(g, w, rtol=0, atol=1e-9):
                j = int(np.argmax(~(np.abs(g - w) <= 1e-9)))
                return f'{name} of row {j} is {g[j]}, not {w[j]}'
        return None

    def shrink(self, sc):
        for c in jplbase.chunks_removed(sc['steps']):
            if c:
                yield dict(sc, steps=c)
        if sc.get('tz'):
            yield dict(sc, tz=None)
        for i, s in enumerate(sc['steps']):
            rep = lambda x: dict(sc, steps=sc['steps'][:i] + [x] + sc['steps'][i + 1:])     # noqa: E731,B023
            for k in ('disk', 'die', 'same_time'):
                if s.get(k):
                    yield rep({a: b for a, b in s.items() if a != k})
            if s['q']['n'] > 1:
                yield rep(dict(s, q=dict(s['q'], n=s['q']['n'] // 2)))
            if s['dm'].get('by'):
                yield rep(dict(s, dm=dict(s['dm'], by=0)))
            if s['dm']['kind'] != 'none':
                yield rep(dict(s, dm={'kind': 'none'}))
            if s['q'].get('extra'):
                yield rep(dict(s, q=dict(s['q'], extra=False)))
