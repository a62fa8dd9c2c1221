#!/usr/bin/env python3
"""bugtool.py validate ID [--tests] [--check]: applies a planted bug to a scratch copy of
/repo, runs its demonstration with and without it, the stable tests and the property's check.
--table records which check caught it, and where, for DESIGN.md.
bugtool.py new ID: takes the diff of scratch copy /tmp/bug-ID/repo and stores it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def copy_repo(d):
    shutil.copytree('/repo', d, symlinks=True)


def validate(bid, tests=True, check=True, seed=1):
    bd = os.path.join(V, 'seeded', bid)
    meta = json.load(open(os.path.join(bd, 'meta.json')))
    tmp = tempfile.mkdtemp(prefix='bugv-')
    out = {'id': bid, 'property': meta['property']}
    try:
        repo = os.path.join(tmp, 'repo')
        copy_repo(repo)
        lay = os.path.join(tmp, 'demo')
        shutil.copytree(bd, lay)
        for f in os.listdir(lay):
            if f.endswith(('.diff', '.patch')) or f == 'meta.json':
                os.unlink(os.path.join(lay, f))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        env.pop('PYTHONPATH', None)
        # stand-in for the editable install
        env['PYTHONPATH'] = os.path.join(repo, 'src')
        r = sh(f'bash {lay}/demo.sh', repo, env, 300)
        out['demo_clean'] = r.returncode
        if r.returncode:
            out['demo_clean_out'] = (r.stdout + r.stderr)[-1500:]
        r = sh(f'git apply {bd}/patch.diff', repo)
        if r.returncode:
            out['apply'] = r.stderr
            return out
        r = sh(f'bash {lay}/demo.sh', repo, env, 300)
        out['demo_bug'] = r.returncode
        out['demo_bug_out'] = (r.stdout + r.stderr)[-300:]
        if tests:
            r = sh(f'{PY} -m pytest -q -p no:cacheprovider tests 2>&1 | tail -3', repo, env, 600)
            m = re.search(r'(\d+) passed', r.stdout)
            out['tests'] = r.stdout.strip().splitlines()[-1] if r.stdout else r.stderr
        if check:
            props = check if isinstance(check, list) else [meta['property']]
            for p in props:
                e = dict(os.environ, DST_REPO_SRC=os.path.join(repo, 'src'), VERIF_SEED=str(seed), VERIF_TIER='quick',
                         DST_EVIDENCE=tmp)
                r = sh(f'python3 {V}/run_check.py {p}', V, e)
                out[f'check_{p}'] = (r.returncode, r.stdout.strip().splitlines()[-2:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def record(r):
    path = os.path.join(V, 'tools', 'bugtable.json')
    table = json.load(open(path))
    for k, v in r.items():
        if k.startswith('check_'):
            m = re.search(r'seed=(\d+) run=(\d+): \[([^]]+)\]', ' '.join(v[1])) if v[0] == 1 else None
            old = table.get(r['id'], '')
            note = old[old.index('; at first'):] if '; at first' in old else ''
            table[r['id']] = (f'{k[6:]}, seed {m[1]}, run {m[2]} ({m[3]})' if m else f'missed by {k[6:]}') + note
    json.dump(table, open(path, 'w'), indent=1, sort_keys=True)


if __name__ == '__main__':
    if sys.argv[1] == 'validate':
        ids = [a for a in sys.argv[2:] if not a.startswith('--')]
        if not ids:
            ids = sorted(os.listdir(os.path.join(V, 'seeded')))
        props = [a[8:].split(',') for a in sys.argv if a.startswith('--props=')]
        for b in ids:
            r = validate(b, '--notests' not in sys.argv, (props[0] if props else '--nocheck' not in sys.argv))
            print(json.dumps(r, indent=1), flush=True)
            if '--table' in sys.argv:
                record(r)
    elif sys.argv[1] == 'new':
        b = sys.argv[2]
        d = os.path.join(V, 'seeded', b)
        os.makedirs(d, exist_ok=True)
        r = sh('git diff', f'/tmp/bug-{b}/repo')
        open(os.path.join(d, 'patch.diff'), 'w').write(r.stdout)
        shutil.rmtree(f'/tmp/bug-{b}')
        print(r.stdout)
