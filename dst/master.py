"""Master: drives worker processes over a seeded sequence of scenarios, minimises
and confirms violations, writes replay and evidence files."""
import json
import os
import re
import selectors
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = '/opt/venv/bin/python'
REPO_SRC = os.environ.get('DST_REPO_SRC', '/repo/src')


class HarnessError(Exception):
    pass


def base_env(scratch, hashseed='0', extra=None):
    env = {
        'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': scratch, 'TMPDIR': scratch,
        'LANG': 'C.UTF-8', 'TZ': 'UTC',
        'PYTHONPATH': REPO_SRC + os.pathsep + VERIF, 'PYTHONDONTWRITEBYTECODE': '1',
        'PYTHONPYCACHEPREFIX': os.path.join(scratch, 'pyc'), 'PYTHONHASHSEED': hashseed,
        'PYTHONNOUSERSITE': '1',
        'OPENBLAS_NUM_THREADS': '1', 'OMP_NUM_THREADS': '1', 'NUMEXPR_NUM_THREADS': '1',
        'NUMEXPR_MAX_THREADS': '8', 'MKL_NUM_THREADS': '1', 'DST_SCRATCH': scratch,
        'DST_VERIF': VERIF, 'DST_REPO_SRC': REPO_SRC,
    }
    if extra:
        env.update(extra)
    return env


class Worker:
    def __init__(self, prop, scratch, idx, env, pyflags=()):
        self.dir = os.path.join(scratch, f'w{idx}')
        os.makedirs(self.dir, exist_ok=True)
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        os.set_inheritable(r1, True)
        os.set_inheritable(w2, True)
        env = dict(env, DST_SCRATCH=self.dir, HOME=self.dir, TMPDIR=self.dir)
        self.p = subprocess.Popen([PY, '-B', *pyflags, os.path.join(HERE, 'worker.py'), prop, str(r1), str(w2)],
                                  env=env, cwd=self.dir, pass_fds=(r1, w2), stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=open(os.path.join(self.dir, 'stderr'), 'ab'))
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, 'w', buffering=1)
        self.rfd = r2
        self.buf = b''
        self.busy = None
        self.queue = []

    def send(self, o):
        self.w.write(json.dumps(o) + '\n')
        self.w.flush()

    def lines(self):
        data = os.read(self.rfd, 1 << 20)
        if not data:
            tail = ''
            try:
                tail = open(os.path.join(self.dir, 'stderr'), errors='replace').read()[-2000:]
            except OSError:
                pass
            raise HarnessError(f'worker died (status {self.p.wait()}): {tail}')
        self.buf += data
        out = []
        while b'\n' in self.buf:
            ln, self.buf = self.buf.split(b'\n', 1)
            out.append(json.loads(ln))
        return out

    def recv(self, timeout=600):
        t0 = time.monotonic()
        sel = selectors.DefaultSelector()
        sel.register(self.rfd, selectors.EVENT_READ)
        got = []
        while not got:
            if time.monotonic() - t0 > timeout:
                raise HarnessError('worker did not answer')
            if sel.select(1.0):
                got = self.lines()
        sel.close()
        return got[0]

    def close(self):
        try:
            self.w.close()
        except OSError:
            pass
        try:
            self.p.wait(3)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        try:
            os.close(self.rfd)
        except OSError:
            pass


class Pool:
    def __init__(self, prop, n, scratch, env, tag='', pyflags=()):
        self.ws = [Worker(prop, scratch, f'{tag}{i}', env, pyflags) for i in range(n)]
        for w in self.ws:
            m = w.recv(300)
            if 'fatal' in m:
                for x in self.ws:
                    x.p.kill()
                raise HarnessError('worker could not start: ' + m['fatal'])

    def map(self, reqs, on_result, stop):
        """reqs: iterator of requests; stop(): True to hand out no more."""
        sel = selectors.DefaultSelector()
        it = iter(reqs)
        active = 0

        def feed(w):
            nonlocal active
            if stop():
                return
            if not w.queue:
                for _ in range(6):
                    try:
                        w.queue.append(next(it))
                    except StopIteration:
                        break
            if not w.queue:
                return
            r = w.queue.pop(0)
            w.busy = r
            w.send(r)
            active += 1
        for w in self.ws:
            sel.register(w.rfd, selectors.EVENT_READ, w)
            feed(w)
        while active:
            for key, _ in sel.select(5.0):
                w = key.data
                for m in w.lines():
                    active -= 1
                    req, w.busy = w.busy, None
                    on_result(req, m)
                    feed(w)
        sel.close()

    def close(self):
        for w in self.ws:
            w.close()


def load_known():
    try:
        return json.load(open(os.path.join(VERIF, 'known_findings.json')))
    except FileNotFoundError:
        return {'findings': [], 'fixed': []}


def known_match(known, prop, v):
    for k in known['findings']:
        if k['property'] == prop and k['class'] == v['class'] and \
                re.search(k['match'], v['where'] + ' :: ' + v['detail']):
            return k
    return None


def confirm(prop, sc, scratch, env, viol, n=2):
    """Re-run a scenario in fresh processes; True when each shows a violation of the same class."""
    cls = {v['class'] for v in viol}
    digs = []
    last = None
    for k in range(n):
        p = Pool(prop, 1, scratch, env, tag=f'confirm{k}')
        try:
            p.ws[0].send({'cmd': 'run', 'sc': sc, 'timeout': 120.0, 'capture': k == 0})
            m = p.ws[0].recv(400)
        finally:
            p.close()
        if m.get('timeout') and 'hang' in cls:
            digs.append('hang')
            last = {'viol': viol, 'digest': 'hang'}
            continue
        if 'rep' not in m:
            return False, m
        hit = [v for v in m['rep']['viol'] if v['class'] in cls]
        if not hit:
            return False, m
        digs.append(m['rep']['digest'])
        if k == 0:
            last = m['rep']
    last = dict(last, digests_equal=len(set(digs)) == 1)
    return True, last


def write_replay(prop, seed, i, sc, rep, info):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f'{prop}-{seed}-{i}.json')
    with open(path, 'w') as f:
        json.dump({'property': prop, 'seed': seed, 'run': i, 'scenario': sc, 'violations': rep.get('viol', [])[:5],
                   'digest': rep.get('digest'), 'faults_fired': rep.get('fired_at'),
                   'schedule_trace': rep.get('schedule_trace'), **info}, f, indent=1)
    return path


def nworkers():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 4
    return max(2, min(8, n))


def check(prop_id, seed, tier, scratch, workers=None):
    """Returns exit code."""
    t0 = time.monotonic()
    meta = json.load(open(os.path.join(HERE, 'props.json')))[prop_id]
    n_runs = meta['runs'][tier]
    cap = meta['cap_s'][tier]
    env = base_env(scratch, extra=meta.get('env'))
    if meta.get('preload'):
        env.update(build_shim(scratch))
    if meta.get('locales'):
        env.update(build_locales(scratch))
    nw = workers or nworkers()
    known = load_known()
    agg = Aggregate(prop_id)
    violations = []
    knowns = {}
    errors = []
    timeouts = []
    pool = Pool(prop_id, nw, scratch, env)
    t_run = time.monotonic()

    def on_result(req, m):
        if 'rep' in m:
            agg.add(m['rep'], m['wall'])
            vs = m['rep']['viol']
            if vs:
                new = []
                for v in vs:
                    k = known_match(known, prop_id, v)
                    if k:
                        knowns.setdefault(k['what'], 0)
                        knowns[k['what']] += 1
                    else:
                        new.append(v)
                if new:
                    violations.append((req['i'], m['sc'], new))
        elif 'timeout' in m:
            timeouts.append(req['i'])
        else:
            errors.append((req['i'], m.get('error')))

    def stop():
        return (len(violations) >= 4 or len(errors) > 20 or len(timeouts) >= 2
                or time.monotonic() - t_run > cap
                or (violations and time.monotonic() - t_run > 20 and violations))
    pool.map(({'cmd': 'gen_run', 'seed': seed, 'i': i, 'tier': tier, 'timeout': meta.get('timeout', 60.0)}
              for i in range(n_runs)), on_result, stop)
    t_run = time.monotonic() - t_run

    # runs that exceeded the real-time limit: confirm before believing
    for i in timeouts[:2]:
        if violations:
            break
        w = pool.ws[0]
        w.send({'cmd': 'gen', 'seed': seed, 'i': i, 'tier': tier})
        m = w.recv(300)
        if 'sc' not in m:
            errors.append((i, 'could not regenerate a timed-out run: %r' % m))
            continue
        w.send({'cmd': 'run', 'sc': m['sc'], 'timeout': 120.0})
        m2 = w.recv(300)
        if 'timeout' in m2:
            violations.append((i, m['sc'], [{'class': 'hang', 'where': f'run {i}',
                                             'detail': 'the run never ends (120 s of real time, twice)'}]))
        elif 'rep' in m2:
            agg.add(m2['rep'], m2['wall'])
            if m2['rep']['viol']:
                violations.append((i, m['sc'], m2['rep']['viol']))
        else:
            errors.append((i, m2.get('error')))

    code = 0
    lines = []
    reported = None
    violations.sort(key=lambda x: x[0])
    unconfirmed = []
    for i, sc, vs in violations[:4]:
        w = pool.ws[0]
        mini, mv, tried = sc, vs, 0
        if not any(v['class'] == 'hang' for v in vs):
            w.send({'cmd': 'minimize', 'sc': sc, 'viol': vs, 'budget_s': meta.get('min_s', 40)})
            m = w.recv(600)
            if 'sc' in m:
                mini, mv, tried = m['sc'], m['viol'], m['tried']
        ok, rep = confirm(prop_id, mini, scratch, env, mv)
        if not ok:
            mini, mv = sc, vs
            ok, rep = confirm(prop_id, mini, scratch, env, mv)
        if not ok:
            unconfirmed.append((i, rep))
            continue
        path = write_replay(prop_id, seed, i, mini, rep,
                            {'minimised_from_bytes': len(json.dumps(sc)), 'minimised_bytes': len(json.dumps(mini)),
                             'candidates_tried': tried, 'replays_exactly': rep.get('digests_equal')})
        lines.append(f'VIOLATION property={prop_id} replay={path}')
        v = mv[0]
        lines.append(f'  seed={seed} run={i}: [{v["class"]}] {v["where"]}: {v["detail"]}')
        code = 1
        reported = path
        break
    pool.close()
    if unconfirmed and code == 0:
        errors.append((unconfirmed[0][0], f'a violation did not replay: {unconfirmed[0][1]}'))
    agg.write(prop_id, seed, tier, meta, time.monotonic() - t0, t_run, n_runs, nw,
              len(violations), knowns, errors, timeouts, reported)
    for what, n in sorted(knowns.items()):
        print(f'KNOWN-FINDING: property={prop_id} {what} ({n} runs)')
    for ln in lines:
        print(ln)
    if code == 0 and agg.n == 0:
        errors.append((-1, 'no run completed'))
    if code == 0 and errors:
        print(f'ERROR property={prop_id}: {len(errors)} harness errors, first: run {errors[0][0]}: {errors[0][1]}')
        return 2
    if code == 0:
        print(f'OK property={prop_id}: {agg.n} simulated runs, {len(agg.fps)} distinct histories, '
              f'{sum(agg.fired.values())} faults fired, {t_run:.1f}s')
    return code


def build_shim(scratch):
    src = [os.path.join(HERE, 'shim', n) for n in ('ambient.c', 'disk.c')]
    out = os.path.join(scratch, 'ambient.so')
    r = subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', out] + src + ['-ldl'], capture_output=True, text=True)
    if r.returncode:
        raise HarnessError('shim build failed: ' + r.stderr)
    return {'LD_PRELOAD': out, 'DST_SHIM': out}


def build_locales(scratch, names=('de_DE', 'tr_TR', 'fa_IR')):
    """A few real locales for the simulated machines, compiled into the scratch directory."""
    d = os.path.join(scratch, 'locales')
    os.makedirs(d, exist_ok=True)
    ps = []
    for n in names:
        try:
            ps.append(subprocess.Popen(['localedef', '-c', '-i', n, '-f', 'UTF-8', os.path.join(d, n + '.UTF-8')],
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        except OSError:
            break
    for p in ps:
        p.wait()
    return {'LOCPATH': d}


class Aggregate:
    def __init__(self, prop):
        self.n = 0
        self.nontrivial = 0
        self.fps = set()
        self.fired = {}
        self.stats = {}
        self.probes = {}
        self.sim_time = 0.0
        self.samples = []
        self.switches = 0
        self.sites = set()
        self.digests = {}

    def add(self, rep, wall):
        self.n += 1
        if rep.get('nontrivial'):
            self.nontrivial += 1
            self.fps.add(rep['fp'])
        for k, v in rep.get('fired', {}).items():
            self.fired[k] = self.fired.get(k, 0) + v
        for k, v in rep.get('stats', {}).items():
            self.stats[k] = self.stats.get(k, 0) + v
        for k, v in rep.get('probes', {}).items():
            self.probes[k] = self.probes.get(k, 0) + v
        self.sim_time += rep.get('sim_time', 0.0)
        self.switches += rep.get('switches', 0)
        for s in rep.get('sites', ()):
            self.sites.add(tuple(s))
        if len(self.samples) < 3 and rep.get('sample') and rep.get('nontrivial'):
            self.samples.append(rep['sample'])

    def write(self, prop_id, seed, tier, meta, wall, t_run, n_runs, nw, nviol, knowns, errors, timeouts, reported):
        hours = max(t_run, 1e-9) / 3600
        cov = {
            'evaluations': self.n,
            'distinct_nontrivial': len(self.fps),
            'rule': meta['rule'],
            'samples': self.samples,
            'simulated_runs': self.n,
            'planned_runs': n_runs,
            'runs_per_hour': round(self.n / hours),
            'seeds': f'sha256(VERIF_SEED={seed}|{prop_id}|i) for i in 0..{n_runs - 1}, in order, until the time cap',
            'simulated_seconds_covered': round(self.sim_time, 1),
            'fault_kinds_fired': dict(sorted(self.fired.items())),
            'context_switches': self.switches,
            'reach_probes': dict(sorted(self.probes.items())),
            'operations': dict(sorted(self.stats.items())),
            'package_lines_scheduled_over': len(self.sites),
            'distinct_measure': meta.get('measure', ''),
            'real_components': meta['real'],
            'stubbed_components': meta['stub'],
            'worker_processes': nw,
            'known_findings_seen': knowns,
            'harness_errors': len(errors),
            'timeouts': len(timeouts),
        }
        if reported:
            cov['replay_file'] = reported
        ev = {'property': prop_id, 'tier': tier, 'seed': seed, 'level': meta['level'], 'coverage': cov,
              'assumptions': meta['assumptions'], 'wall_s': round(wall, 2), 'violations': nviol}
        d = os.environ.get('DST_EVIDENCE') or os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, f'.{prop_id}.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, f'{prop_id}.json'))


def replay(path, scratch):
    d = json.load(open(path))
    prop = d['property']
    meta = json.load(open(os.path.join(HERE, 'props.json')))[prop]
    env = base_env(scratch, extra=meta.get('env'))
    if meta.get('preload'):
        env.update(build_shim(scratch))
    if meta.get('locales'):
        env.update(build_locales(scratch))
    p = Pool(prop, 1, scratch, env)
    try:
        p.ws[0].send({'cmd': 'run', 'sc': d['scenario'], 'timeout': 120.0, 'capture': True})
        m = p.ws[0].recv(400)
    finally:
        p.close()
    if m.get('timeout'):
        print(f'VIOLATION property={prop} replay={path}')
        print('  the run never ends')
        return 1
    if 'rep' not in m:
        print('ERROR', m.get('error'))
        return 2
    if m['rep']['viol']:
        print(f'VIOLATION property={prop} replay={path}')
        for v in m['rep']['viol'][:5]:
            print(f'  [{v["class"]}] {v["where"]}: {v["detail"]}')
        print(f'  event-log digest {m["rep"]["digest"]} (recorded {d.get("digest")})')
        return 1
    print(f'OK property={prop}: the replayed scenario shows no violation')
    return 0


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--selftest', action='store_true', help='bring the stack up once and exit (setup_cmd)')
    ap.add_argument('--replay')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or '1'))
    ap.add_argument('--workers', type=int)
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    scratch = tempfile.mkdtemp(prefix=f'dst-{a.property}-')
    try:
        if a.selftest:
            p = Pool('C01', 1, scratch, base_env(scratch))
            p.ws[0].send({'cmd': 'gen_run', 'seed': 1, 'i': 0, 'tier': 'quick'})
            m = p.ws[0].recv()
            p.close()
            print('selftest', 'ok' if 'rep' in m else m)
            return 0 if 'rep' in m else 2
        if a.replay:
            return replay(a.replay, scratch)
        print(f'seed={a.seed} tier={tier} property={a.property}', flush=True)
        return check(a.property, a.seed, tier, scratch, a.workers)
    except HarnessError as e:
        print(f'ERROR property={a.property}: {e}')
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
