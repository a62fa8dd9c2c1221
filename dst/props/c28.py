"""C28: results, errors and calls survive the trip to another process."""
import ctypes
import json
import os
import pickle

from .. import callsim, canon, fleet, forkrun, rng as _rng, specs, stack
from ..minimize import chunks_removed
from . import base

PROTOCOLS = [2, 3, 4, 5]        # xarray objects need 2 or later


class Prop(base.CallProp):
    ID = 'C28'

    def prepare(self):
        stack.bring_up(locks=False, cli=False)

    # ------------------------------------------------------------ generation
    def gen(self, r, i, tier):
        f = self.fam_rng()
        if f.random() < .1:
            fam = specs.util_family(f, 3)
        else:
            fam = specs.gen_family(f, f.choice([2, 3, 3, 4]), f.choices(['tiny', 'small', 'medium'], [4, 5, 1])[0], bad=.2)
        during = specs.gen_spec(f, 'tiny', None, f.choice([a for a in specs.ALGS if a[1] == 'numpy']))
        during['eng'] = 'numpy'
        fam.append(during)
        pool = base.read_pool(f, f.choice([3, 5, 7]), bad=.5)
        nroot = r.choice([2, 2, 3, 4])
        nodes = [{} for _ in range(nroot)]
        if r.random() < .1:
            nodes[-1] = {'hashseed': r.randrange(2**32), 'opt': r.choice([0, 1, 2])}
        # what the nodes will hold, if all goes well
        alive = list(range(nroot))
        kids = list(range(nroot, fleet.Fleet.MAX))
        cold = {k for k in alive if 'opt' in nodes[k]}
        slots = {k: {} for k in alive}
        msgs = []           # [id, spec or None]
        ops, nslot, nmsg = [], 0, 0
        isres = lambda s: fam[s].get('fn') != 'util' and not fam[s].get('bad')      # noqa: E731

        def some(n):
            return r.choice(sorted(slots[n])) if slots[n] else None
        for _ in range(r.randint(8, 24)):
            x = r.random()
            n = r.choice(alive)
            if x < .22 or not any(slots.values()):
                s = r.randrange(len(fam))
                op = {'op': 'call', 'node': n, 'spec': s, 'slot': nslot}
                if r.random() < .35:
                    op['via'], op['proto'] = r.choice(alive), r.choice(PROTOCOLS)
                ops.append(op)
                slots[n][nslot] = s
                nslot += 1
            elif x < .40:
                k = some(n)
                if k is None or not isres(slots[n][k]):
                    continue
                op = {'op': 'read', 'node': n, 'slot': k, 'acc': r.choice(pool)}
                if r.random() < .4:
                    op['send'], op['msg'] = r.choice(PROTOCOLS), nmsg
                    msgs.append([nmsg, None])
                    nmsg += 1
                if r.random() < .35:
                    op['scribble'] = r.choice(['scale', 'add', 'one', 'fill', 'attrs', 'name', 'coords', 'recoord'])
                ops.append(op)
            elif x < .54:
                k = some(n)
                if k is None:
                    continue
                ops.append({'op': 'send', 'node': n, 'slot': k, 'proto': r.choice(PROTOCOLS), 'msg': nmsg})
                msgs.append([nmsg, slots[n][k]])
                nmsg += 1
            elif x < .72:
                if not msgs:
                    continue
                m = r.choice(msgs)
                if r.random() < .8:      # otherwise it stays in the network, to arrive again
                    msgs.remove(m)
                if m[1] is None:
                    ops.append({'op': 'look', 'node': n, 'msg': m[0]})
                else:
                    ops.append({'op': 'deliver', 'node': n, 'msg': m[0], 'slot': nslot})
                    if r.random() < .5:
                        ops[-1]['accs'] = r.sample(pool, len(pool))
                    slots[n][nslot] = m[1]
                    nslot += 1
            elif x < .79:
                k = some(n)
                if k is None:
                    continue
                ops.append({'op': 'copy', 'node': n, 'from': k, 'slot': nslot, 'how': r.choice(['copy', 'deepcopy'])})
                slots[n][nslot] = slots[n][k]
                nslot += 1
            elif x < .88:
                if not kids:
                    continue
                c = kids.pop(0)
                op = {'op': 'fork', 'node': n, 'child': c}
                if r.random() < .5 and n not in cold:
                    op['during'], op['at'] = len(fam) - 1, 1 + int(r.expovariate(1 / 40))
                ops.append(op)
                alive.append(c)
                slots[c] = dict(slots[n])
                if n in cold:
                    cold.add(c)
            elif x < .93:
                k = some(n)
                if k is not None:
                    ops.append({'op': 'check', 'node': n, 'slot': k})
            elif x < .96:
                k = some(n)
                if k is not None:
                    ops.append({'op': 'drop', 'node': n, 'slot': k})
                    del slots[n][k]
            elif len(alive) > 1:
                ops.append({'op': 'die', 'node': n, 'spec': r.randrange(len(fam)), 'at': 1 + int(r.expovariate(1 / 40))})
                alive.remove(n)
        return {'specs': fam, 'nodes': nodes, 'ops': ops, 'pool': pool}

    # ------------------------------------------------------------ execution
    def run(self, sc, timeout=60.0, capture=False):
        accs = list(sc['pool'])
        for op in sc['ops']:
            if op['op'] == 'read' and op['acc'] not in accs:
                accs.append(op['acc'])
        used = {op[k] for op in sc['ops'] for k in ('spec', 'during') if k in op}
        want = {s: self.oracle.get(sc['specs'][s], [] if sc['specs'][s].get('fn') == 'util' else accs) for s in sorted(used)}
        rep = forkrun.run(lambda: Sim(sc, want).go(), timeout)
        rep['fp'] = _rng.digest([rep['trace'], [(s.get('uc'), s.get('alg'), s.get('eng')) for s in sc['specs']]])
        rep['nontrivial'] = sum(rep['fired'].values()) > 0
        rep['digest'] = _rng.digest([rep['trace'], rep['viol']])
        rep['sample'] = {'nodes': sc['nodes'], 'ops': [(o['op'], o.get('node')) for o in sc['ops']][:10]}
        rep['probes'] = {}
        return rep

    # ------------------------------------------------------------ shrink
    def shrink(self, sc):
        for c in chunks_removed(sc['ops'], 1):
            yield dict(sc, ops=c)
        for k, n in enumerate(sc['nodes']):
            if n:
                yield dict(sc, nodes=sc['nodes'][:k] + [{}] + sc['nodes'][k + 1:])
        for k, o in enumerate(sc['ops']):
            for drop in (('accs',), ('via', 'proto'), ('during', 'at'), ('scribble',), ('send', 'msg')):
                if drop[0] in o:
                    yield dict(sc, ops=sc['ops'][:k] + [{a: b for a, b in o.items() if a not in drop}] + sc['ops'][k + 1:])
            if o.get('at', 1) > 1:
                for v in (1, o['at'] // 2, o['at'] - 1):
                    yield dict(sc, ops=sc['ops'][:k] + [dict(o, at=v)] + sc['ops'][k + 1:])
        for c in chunks_removed(sc['pool']):
            yield dict(sc, pool=c)
        used = sorted({o[k] for o in sc['ops'] for k in ('spec', 'during') if k in o})
        if used and len(used) < len(sc['specs']):
            m = {o: i for i, o in enumerate(used)}
            yield dict(sc, specs=[sc['specs'][u] for u in used],
                       ops=[{a: (m[b] if a in ('spec', 'during') else b) for a, b in o.items()} for o in sc['ops']])
        for i, s in enumerate(sc['specs']):
            for c in self.simpler_spec(s):
                yield dict(sc, specs=sc['specs'][:i] + [c] + sc['specs'][i + 1:])


class Sim:
    """The coordinator: keeps the network and decides what each worker does next."""

    def __init__(self, sc, want):
        self.sc, self.want = sc, want
        self.viol, self.trace, self.fired = [], [], {}
        self.stats = {'calls': 0, 'reads': 0, 'sent': 0, 'delivered': 0, 'forks': 0, 'checks': 0}
        self.slots = {}
        self.msgs = {}          # id -> (kind, spec, acc, bytes)
        self.seen = {}
        self.last = -1

    def bad(self, cls, where, detail):
        self.viol.append({'class': cls, 'where': where, 'detail': detail})

    def fire(self, what, n=1):
        self.fired[what] = self.fired.get(what, 0) + n

    def go(self):
        ctypes.CDLL(None).prctl(36, 1, 0, 0, 0)      # workers orphaned by a death are ours to bury
        self.fl = fl = fleet.Fleet()
        try:
            for i, n in enumerate(self.sc['nodes']):
                if 'opt' in n:
                    fl.start_fresh(i, n['hashseed'], n['opt'])
                    self.fire('own-interpreter')
                else:
                    fl.start(i)
                self.slots[i] = {}
            for k, op in enumerate(self.sc['ops']):
                if not self.step(k, op):
                    break
            else:
                for n in sorted(self.slots):
                    if fl.alive[n]:
                        for s in sorted(self.slots[n]):
                            if not self.step('end', {'op': 'check', 'node': n, 'slot': s, 'accs': self.sc['pool']}):
                                break
        finally:
            fl.stop()
            while True:
                try:
                    os.waitpid(-1, 0)
                except ChildProcessError:
                    break
        for m, (kind, _, _, _) in sorted(self.msgs.items()):
            c = self.seen.get(m, 0)
            if c == 0:
                self.fire('lost-message')
            elif c > 1:
                self.fire('duplicate', c - 1)
        return {'viol': self.viol, 'fired': self.fired, 'fired_at': [], 'switches': 0, 'points': len(self.sc['ops']),
                'trace': _rng.digest(self.trace), 'sites': [], 'stats': self.stats}

    def step(self, k, op):
        n = op['node']
        if n not in self.slots or not self.fl.alive[n]:
            return True
        where = f'op {k} ({op["op"]} on node {n})'
        try:
            out = getattr(self, 'op_' + op['op'])(op, n, where)
        except fleet.Hang:
            self.bad('hang', where, 'the worker waits for something that never comes')
            return False
        except fleet.Dead:
            self.bad('died', where, 'the worker died')
            return False
        self.trace.append([op['op'], n, out])
        return True

    def compare(self, cls, where, exp, out):
        """exp: canonical value or error; out: a worker's answer."""
        if 'stuck' in out:
            self.bad('does-not-travel', where, out['stuck'])
            return False
        got = out['exc'] if 'exc' in out else out['res']
        d = canon.diff(exp, got, 'value')
        if d:
            self.bad(cls, where, d)
        elif 'travelled' in out:
            d = canon.diff(exp, out['travelled'], 'error')
            if d:
                self.bad('does-not-travel', where, 'the error, received elsewhere: ' + d)
        return 'exc' not in out and not d

    # ---------------------------------------------------------------- operations
    def op_call(self, op, n, where):
        req = {'do': 'call', 'slot': op['slot']}
        via = op.get('via')
        if via is not None and via in self.slots and self.fl.alive[via]:
            p = self.fl.ask(via, {'do': 'pack', 'spec': self.sc['specs'][op['spec']], 'proto': op['proto']})
            if 'stuck' in p:
                self.bad('does-not-travel', where, p['stuck'])
                return 'stuck'
            req['bytes'] = p['bytes']
            self.fire('call-sent')
        else:
            req['spec'] = self.sc['specs'][op['spec']]
        out = self.fl.ask(n, req)
        self.stats['calls'] += 1
        if self.compare('wrong-answer', where, self.want[op['spec']]['res'], out):
            self.slots[n][op['slot']] = op['spec']
        return 'exc' if 'exc' in out else 'ok'

    def op_read(self, op, n, where):
        s = self.slots[n].get(op['slot'])
        if s is None:
            return None
        key = json.dumps(op['acc'])
        if key not in self.want[s]['acc']:
            return None
        out = self.fl.ask(n, {'do': 'read', 'slot': op['slot'], 'acc': op['acc'], 'scribble': op.get('scribble'),
                              'send': op.get('send')})
        self.stats['reads'] += 1
        ok = self.compare('wrong-read', where + ' ' + specs.acc_name(op['acc']), self.want[s]['acc'][key], out)
        if ok and 'bytes' in out:
            self.msgs[op['msg']] = ('value', s, key, out['bytes'])
        if out.get('writes'):
            self.fire('written-over')
        return 'exc' if 'exc' in out else ['ok', out.get('writes')]

    def op_look(self, op, n, where):
        m = self.msgs.get(op['msg'])
        if m is None or m[0] != 'value':
            return None
        self.arrive(op['msg'])
        out = self.fl.ask(n, {'do': 'look', 'bytes': m[3]})
        self.compare('wrong-arrival', where + ' ' + m[2], self.want[m[1]]['acc'][m[2]], out)
        return 'ok'

    def arrive(self, m):
        self.seen[m] = self.seen.get(m, 0) + 1
        if m < self.last:
            self.fire('out-of-order')
        self.last = max(self.last, m)
        self.stats['delivered'] += 1

    def op_send(self, op, n, where):
        s = self.slots[n].get(op['slot'])
        if s is None:
            return None
        out = self.fl.ask(n, {'do': 'send', 'slot': op['slot'], 'proto': op['proto']})
        if 'stuck' in out:
            self.bad('does-not-travel', where, out['stuck'])
            return 'stuck'
        self.stats['sent'] += 1
        self.msgs[op['msg']] = ('result', s, None, out['bytes'])
        return 'ok'

    def op_deliver(self, op, n, where):
        m = self.msgs.get(op['msg'])
        if m is None or m[0] != 'result':
            return None
        self.arrive(op['msg'])
        out = self.fl.ask(n, {'do': 'deliver', 'bytes': m[3], 'slot': op['slot']})
        if 'stuck' in out:
            self.bad('does-not-travel', where, out['stuck'])
            return 'stuck'
        self.slots[n][op['slot']] = m[1]
        return self.op_check(dict(op), n, where)

    def op_copy(self, op, n, where):
        s = self.slots[n].get(op['from'])
        if s is None:
            return None
        out = self.fl.ask(n, {'do': 'copy', 'from': op['from'], 'slot': op['slot'], 'how': op['how']})
        if 'stuck' in out:
            self.bad('does-not-travel', where, out['stuck'])
            return 'stuck'
        self.fire(op['how'])
        self.slots[n][op['slot']] = s
        return self.op_check(dict(op), n, where)

    def op_check(self, op, n, where):
        s = self.slots[n].get(op['slot'])
        if s is None:
            return None
        accs = [a for a in op.get('accs', ()) if json.dumps(a) in self.want[s]['acc']]
        out = self.fl.ask(n, {'do': 'check', 'slot': op['slot'], 'accs': accs})
        self.stats['checks'] += 1
        self.compare('result-changed', where + f', result {op["slot"]}', self.want[s]['res'], out)
        for a, o in zip(accs, out.get('reads', ())):
            self.stats['reads'] += 1
            self.compare('wrong-read', where + f', result {op["slot"]} {specs.acc_name(a)}', self.want[s]['acc'][json.dumps(a)], o)
        return 'ok'

    def op_drop(self, op, n, where):
        if self.slots[n].pop(op['slot'], None) is not None:
            self.fl.ask(n, {'do': 'drop', 'slot': op['slot']})
        return 'ok'

    def op_fork(self, op, n, where):
        c = op['child']
        if c in self.slots:
            return None
        req = {}
        if 'during' in op:
            req = {'during': self.sc['specs'][op['during']], 'at': op['at']}
        out = self.fl.fork(n, c, req)
        self.stats['forks'] += 1
        self.slots[c] = dict(self.slots[n])
        self.fire('fork-in-mid-call' if out.get('paused') else 'fork')
        if 'during' in op:
            self.compare('wrong-answer', where + ', the call in progress', self.want[op['during']]['res'], out)
        return ['ok', out.get('paused')]

    def op_die(self, op, n, where):
        try:
            self.fl.ask(n, {'do': 'die', 'spec': self.sc['specs'][op['spec']], 'at': op['at']})
        except fleet.Dead:
            self.fire('power-loss')
            return 'dead'
        raise RuntimeError('the worker survived')
