#!/usr/bin/env python3
"""selfcheck.py [IDS] [--n N] [--seed S]: is one seed one execution?  Every property runs its first N
scenarios under four configurations (one worker; three workers; reversed order; another hash seed in a
busy machine) and the digests of their event logs must agree."""
import json
import os
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dst import master  # noqa: E402


def digests(prop, meta, seed, ids, workers, hashseed):
    scratch = tempfile.mkdtemp(prefix=f'self-{prop}-')
    out = {}
    try:
        env = master.base_env(scratch, hashseed, extra=meta.get('env'))
        if meta.get('preload'):
            env.update(master.build_shim(scratch))
        if meta.get('locales'):
            env.update(master.build_locales(scratch))
        pool = master.Pool(prop, workers, scratch, env)

        def on(req, m):
            out[req['i']] = m['rep']['digest'] if 'rep' in m else ('?', str(m)[:200])
        pool.map([{'cmd': 'gen_run', 'seed': seed, 'i': i, 'tier': 'quick', 'timeout': 150.0} for i in ids],
                 on, lambda: False)
        pool.close()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return out


def main():
    props = json.load(open(os.path.join(V, 'dst', 'props.json')))
    ids = [a for a in sys.argv[1:] if a in props] or sorted(props)
    n = int(sys.argv[sys.argv.index('--n') + 1]) if '--n' in sys.argv else 40
    seed = int(sys.argv[sys.argv.index('--seed') + 1]) if '--seed' in sys.argv else 1
    bad = 0
    for p in ids:
        fwd, rev = list(range(n)), list(range(n))[::-1]
        conf = [(fwd, 1, '0'), (fwd, 3, '0'), (rev, 2, '0'), (fwd, 8, '12345')]
        res = [digests(p, props[p], seed, o, w, h) for o, w, h in conf]
        diff = [[i for i in fwd if r.get(i) != res[0].get(i)] for r in res[1:]]
        ok = not any(diff)
        bad += not ok
        print(p, 'same digests' if ok else f'DIFFERENT: workers {diff[0]} order {diff[1]} hash seed {diff[2]}', flush=True)
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
