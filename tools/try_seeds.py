#!/usr/bin/env python3
"""
Runs checks against planted bugs in scratch copies: try_seeds.py [-t TIER]
[-p PROPERTY] [ID ...]; without -p each is run against its own property.
"""
import argparse
import json
import os
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = '/verif'


def one(args):
    sid, prop, tier = args
    folder = os.path.join(HERE, 'seeded', sid)
    if not prop:
        prop = json.load(open(os.path.join(folder, 'meta.json')))['property']
    work = tempfile.mkdtemp(prefix='try_', dir='/tmp')
    os.chmod(work, 0o755)       # checks may run as another user
    try:
        repo, verif = os.path.join(work, 'repo'), os.path.join(work, 'verif')
        shutil.copytree('/repo', repo, symlinks=True)
        shutil.copytree(HERE, verif, symlinks=True,
                        ignore=shutil.ignore_patterns('.git', 'seeded',
                                                      'evidence', 'replays'))
        r = subprocess.run(['git', 'apply', os.path.join(folder, 'patch.diff')],
                           cwd=repo, capture_output=True, text=True)
        if r.returncode:
            return sid, prop, 'DOES NOT APPLY', 0, r.stderr
        t = time.time()
        try:
            r = subprocess.run(
                ['/opt/venv/bin/python', 'check.py', prop, '--tier', tier],
                cwd=verif, capture_output=True, text=True, timeout=900,
                env={**os.environ, 'VERIF_REPO': repo, 'VERIF_SEED': '1'})
        except subprocess.TimeoutExpired:
            return sid, prop, 'TIMEOUT', 900, ''
        hit = r.returncode == 1 and f'VIOLATION property={prop} ' in r.stdout
        lines = [x for x in r.stdout.splitlines() if not x.startswith('KNOWN')]
        return (sid, prop, 'caught' if hit else f'MISSED ({r.returncode})',
                time.time() - t, '\n'.join(lines[:3])[:400] + r.stderr[-300:])
    finally:
        shutil.rmtree(work)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('-t', default='quick')
    p.add_argument('-p')
    p.add_argument('-j', type=int, default=6)
    p.add_argument('-v', action='store_true')
    p.add_argument('ids', nargs='*')
    a = p.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    with ThreadPoolExecutor(a.j) as pool:
        for sid, prop, res, secs, out in pool.map(
                one, [(i, a.p, a.t) for i in ids]):
            print(f'{sid:28} {prop} {res} {secs:.0f}s', flush=True)
            if a.v or not res.startswith('caught'):
                print('    ' + out.replace('\n', '\n    '), flush=True)


if __name__ == '__main__':
    main()
