#!/usr/bin/env python3
"""revertcheck.py [COMMITS]: undoes each fix of /repo on its own in a scratch copy and runs the check of
its property, which must report it again."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    fixed = [re.match(r'fixed: property=(\S+) (\S+) (.*)', x).groups()
             for x in json.load(open(os.path.join(V, 'known_findings.json')))['fixed']]
    for prop, commit, what in fixed:
        if sys.argv[1:] and commit not in sys.argv[1:]:
            continue
        tmp = tempfile.mkdtemp(prefix='revert-')
        try:
            repo = os.path.join(tmp, 'repo')
            shutil.copytree('/repo', repo, symlinks=True)
            r = subprocess.run(['git', '-C', repo, '-c', 'user.name=x', '-c', 'user.email=x@x', 'revert', '--no-commit', commit],
                               capture_output=True, text=True)
            if r.returncode:
                print(prop, commit, 'CONFLICT', flush=True)
                continue
            e = dict(os.environ, DST_REPO_SRC=os.path.join(repo, 'src'), VERIF_SEED='1', VERIF_TIER='quick', DST_EVIDENCE=tmp)
            r = subprocess.run(['python3', os.path.join(V, 'run_check.py'), prop], env=e, capture_output=True, text=True)
            print(prop, commit, 'caught' if r.returncode == 1 else f'NOT CAUGHT ({r.returncode})',
                  r.stdout.strip().splitlines()[-1][:200], flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    main()
