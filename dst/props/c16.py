"""C16: a stalled ephemeris server cannot hang a download."""
import os

from .. import jplsim
from . import jplbase
from .c11 import Prop as C11

BOUND = 900.


def gen_stall(r):
    k = r.choice(['connect', 'connect', 'tls', 'send', 'silent', 'silent', 'cut', 'cut', 'cut', 'cut', 'later'])
    f = {'kind': k, 'lag': r.choice([.02, .02, 1., 4.])}
    if k == 'connect':
        f.update(how='stall', all=r.random() < .7)
    elif k in ('tls', 'send', 'silent'):
        f['how'] = 'stall'
    elif k == 'cut':
        f.update(how='stall', at=r.choice([0, 1000, r.randrange(1001), r.randrange(1001)]), back=r.choice([0, 0, 1, 2, 7, 100]),
                 where=r.choice(['body', 'body', 'body', 'head']), framing=r.choice(['cl', 'chunked', 'close']))
    else:       # come back later
        f = {'kind': 'status', 'code': r.choice([503, 503, 429, 413]), 'body': 'text', 'lag': f['lag'],
             'retry_after': r.choice([60, 3600, 86400, 10**7, 'Wed, 21 Oct 2099 07:28:00 GMT', 1])}
    return f


class Prop(jplbase.JplProp):
    ID = 'C16'
    call = staticmethod(C11.call)

    def gen(self, r, i, tier):
        lon, lat = jplbase.site(r)
        n = r.choice([2, 10, 60, r.randrange(2, 300), 2000])
        net = jplbase.gen_net(r, 0, n < 400)
        net['gap'] = r.choice([0., 0., .3])
        f = []
        for _ in range(r.choice([1, 1, 1, 2, 3, 4, 5])):
            f.append(gen_stall(r) if r.random() < .7 else jplbase.gen_net_fault(r))
        net['faults'] = f
        if r.random() < .7:
            net['tail'] = gen_stall(r)
        return {'start': 28401120 + 12 * r.randrange(40000), 'n': n, 'step': r.choice([1, 12]), 'site': [lon, lat, 0.],
                'out': r.choice(['x.txt', 'o/x.txt', 'a/b/c.txt']), 'prior': r.random() < .4, 'plan': {'net': net}, 'calls': r.choice([1, 1, 2])}

    def run(self, sc, timeout=60., capture=False):
        d = self.scratch()
        try:
            return self._run(sc, d, timeout)
        finally:
            self.drop(d)

    def _run(self, sc, d, timeout):
        root = os.path.join(d, 'w')
        path = os.path.join(root, sc['out'])
        if sc['prior']:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'wb') as f:
                f.write(b'earlier\n' * 30)
        viol, fired, hist, simt = [], {}, [], 0.
        for k in range(sc['calls']):
            before = self.files(root)
            side = os.path.join(d, 'side', str(k))
            os.mkdir(side)
            res = jplsim.attempt(self.call(sc), sc['plan'], root, side, timeout)
            self.tally(fired, sc['plan'], res)
            after = self.files(root)
            replies = list(self.files(side).values())
            o = res['out']
            simt += res['clock']
            where = f'download {k + 1}, {o[0]}'
            hist.append([o[0], o[1] if o[0] == 'error' else '', round(res['clock'], 3), [x[1:] for x in res['log']]])
            if o[0] == 'hang':
                viol.append({'class': 'hang', 'where': where, 'detail': o[1] + ': ' + '; '.join(str(x[1:]) for x in res['log'][-4:])})
            elif res['clock'] > BOUND:
                viol.append({'class': 'too-late', 'where': where, 'detail': f'ended ({o[0]}) after {res["clock"]:.0f} simulated seconds'})
            name = os.path.normpath(sc['out'])
            if o[0] == 'ok':
                if after.get(name) not in replies:
                    viol.append({'class': 'success-without-reply', 'where': where, 'detail': f'{len(replies)} complete replies were sent'})
            elif after != before and not any(x == name and after[x] in replies for x in after if after.get(x) != before.get(x)):
                new = {x: len(after[x]) for x in after if after.get(x) != before.get(x)}
                viol.append({'class': 'partial-output', 'where': where, 'detail': f'left behind: {sorted(new.values())} bytes; gone: {sorted(set(before) - set(after))}'})
            if viol:
                break
        return self.finish({'viol': viol, 'fired': fired, 'fired_at': [h[:3] for h in hist], 'points': sum(len(h[3]) for h in hist), 'sim_time': simt,
                            'stats': {'downloads': len(hist), 'ended-with-error': sum(h[0] == 'error' for h in hist)},
                            'probes': {'over-5-minutes': int(any(h[2] > 300 for h in hist))},
                            'sample': {'n': sc['n'], 'faults': sc['plan']['net']['faults'][:2], 'outcome': [h[:3] for h in hist]}}, sc, [hist, sc['prior']])

    def shrink(self, sc):
        if sc['calls'] > 1:
            yield dict(sc, calls=1)
        for q in jplbase.simpler_plan(sc['plan']):
            yield dict(sc, plan=q)
        for k, v in (('prior', False), ('n', 2), ('step', 1), ('site', [0., 0., 0.]), ('out', 'x.txt'), ('start', 28401120)):
            if sc[k] != v:
                yield dict(sc, **{k: v})
